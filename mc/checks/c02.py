"""C02: waiting n cycles resumes exactly n edges later, for every waiter."""
import itertools

from toffee import Bundle, BundleList, ClockCycles, Event, Signal, SignalList, Signals, create_task, sleep, start_clock

from .. import fake
from ..core import Violation, expect
from ..loop import explore_schedules
from ..util import need_ok, run, user_named

ID = "C02"
BOUNDS = {
    "quick": "1 task: all sequences of <=2 waits over 11 wait kinds x n in {0,1,2,3,5,17} x 5 start points; 2 tasks: <=2 waits each, 3 kinds, n<=2, "
    "all start offsets <=2, <=1 reordering; 3 tasks with one wait each over all kinds, n<=2; n up to 2049, waits begun after 1100 cycles, 300 waits of one task, up to 270 waiters, over all kinds",
    "thorough": "1 task: <=3 waits over 11 kinds x n in {0,1,2,3}; 2 tasks: <=2 waits each over 11 kinds x n<=2; 3 tasks <=2 waits, 2 kinds, <=2 reorderings; n up to 120",
}
KINDS = ("dut", "pin", "bundle", "step", "nest", "list", "blist", "empty", "wait", "evb", "evs")
START = ("0", "1", "2", "y", "ev")


class Plain(Bundle):
    p = Signal()


class Inner(Bundle):
    x = Signal()


class Nest(Bundle):
    sub = Inner.from_prefix("s_")


class Deep(Bundle):
    sub2 = Nest.from_prefix("d_")


class SL(Bundle):
    v = SignalList("v#", 3)


class BL(Bundle):
    vec = BundleList(Inner, "b#_", 2)


PINS = ["p", "s_x", "d_s_x"] + [f"v{i}" for i in range(3)] + ["b0_x", "b1_x", "io_event", "io_wait", "io_p"]


class Handshake(Bundle):
    """Signals with the names that triggers look for on pins and DUTs."""

    event, wait, p = Signals(3)


class OnlyWait:
    """Something that offers only wait(), as the third form ClockCycles accepts."""

    def __init__(self, dut):
        self.d = dut

    async def wait(self):
        await self.d.__dict__["event"].wait()


def world(h):
    dut = fake.DUT(PINS, horizon=h)
    return dut


def waiter(w, kind, n):
    d = w["dut"]
    if kind == "dut":
        return ClockCycles(d, n)
    if kind == "pin":
        return ClockCycles(d.p, n)
    if kind == "bundle":
        return ClockCycles(w["plain"], n)
    if kind == "step":
        return w["plain"].step(n)
    if kind == "nest":
        return w["deep"].step(n)
    if kind == "list":
        return w["sl"].step(n)
    if kind == "blist":
        return w["bl"].step(n)
    if kind == "empty":
        return w["part"].step(n)
    if kind == "wait":
        return ClockCycles(OnlyWait(d), n)
    if kind == "evb":
        return ClockCycles(w["evb"], n)
    if kind == "evs":
        return ClockCycles(w["evb"].event, n)
    if kind == "dflc":
        return ClockCycles(d)
    if kind == "dfls":
        return w["plain"].step()
    raise AssertionError(kind)


class Part(Bundle):
    missing = Signal()
    p = Signal()


BUNDLES = (
    ("plain", Plain, {"bundle", "step", "dfls"}),
    ("deep", Deep, {"nest"}),
    ("sl", SL, {"list"}),
    ("bl", BL, {"blist"}),
    ("part", Part, {"empty"}),
    ("evb", Handshake, {"evb", "evs"}),
)


def cases(tier):
    th = tier == "thorough"
    ns = (0, 1, 2, 3) if th else (0, 1, 2, 3, 5, 17)
    atoms = [[k, n] for k in KINDS for n in ns] + [["dflc", 1], ["dfls", 1], ["y", 0], ["y", 3]]
    for L in range(1, (3 if th else 2) + 1):
        for seq in itertools.product(atoms, repeat=L):
            for st in START if L < 3 else ("0", "1"):
                yield {"t": [[st, list(seq)]], "dev": 0}
    for n in (41, 120):
        for k in KINDS:
            yield {"t": [["1", [[k, n], [k, 1]]], ["0", [["dut", n]]]], "dev": 0}
    for n in (63, 64, 127, 128, 255, 256, 257, 511, 513, 999, 1000, 1001, 1025, 2049) + ((4097, 10001) if th else ()):
        for k in KINDS:
            yield {"t": [["1", [[k, n], [k, 2]]]], "dev": 0}
    # late in a long run, and many waiters
    for k in KINDS:
        for n in (1, 2, 7):
            yield {"t": [["0", [["dut", 1100], [k, n], [k, 1]]], ["1", [[k, 1]] * 300]], "dev": 0}
    for m in (8, 17, 33, 65, 130, 270):
        for k in KINDS:
            yield {"t": [[START[i % 3], [[k, 1 + i % 3], [k, 1]]] for i in range(m)], "dev": 0}
        yield {"t": [[START[i % 5], [[KINDS[i % len(KINDS)], 1 + i % 4], ["y", i % 2], [KINDS[i // 2 % len(KINDS)], 1]]] for i in range(m)], "dev": 0}
    k2 = KINDS if th else ("dut", "bundle", "pin")
    a2 = [[k, n] for k in k2 for n in (0, 1, 2)] + [["y", 1]]
    seqs = [list(s) for L in (1, 2) for s in itertools.product(a2, repeat=L)]
    for s0, s1 in itertools.product(("0", "1", "2", "ev"), repeat=2):
        for q0 in seqs:
            for q1 in seqs:
                if th or (len(q0) + len(q1) < 4 or (s0, s1) in (("0", "0"), ("0", "1"), ("1", "0"))):
                    yield {"t": [[s0, q0], [s1, q1]], "dev": 1 if len(q0) + len(q1) <= 2 else 0}
    a3 = [[k, n] for k in KINDS for n in (1, 2)]
    for qs in itertools.product(a3, repeat=3):
        yield {"t": [["0", [qs[0]]], ["0", [qs[1]]], ["1", [qs[2]]]], "dev": 0}
    a3 = [[k, n] for k in ("dut", "step") for n in (0, 1, 2)]
    sq3 = [list(s) for L in (1, 2) for s in itertools.product(a3, repeat=L)] if th else [[a] for a in a3]
    for qs in itertools.product(sq3, repeat=3):
        yield {"t": [["0", qs[0]], ["1", qs[1]], ["0", qs[2]]], "dev": 2 if sum(map(len, qs)) <= 3 else 0}


def run_case(case, rec):
    specs = case["t"]
    used = {k for _, seq in specs for k, _ in seq}
    need = [(n, c) for n, c, ks in BUNDLES if used & ks]
    total = max((2 if st == "2" else 1) + sum(n for k, n in seq if k != "y") for st, seq in specs) + 2

    def once(schedule):
        box = {}
        log = [[] for _ in specs]

        async def start(st, d, ev):
            if st in "12":
                for _ in range(int(st)):
                    await d.event.wait()
            elif st == "y":
                await sleep(0)
                await sleep(0)
            elif st == "ev":
                await ev.wait()

        async def user(i, st, seq, w, ev):
            d = w["dut"]
            await start(st, d, ev)
            log[i].append(d.n)
            for k, n in seq:
                if k == "y":
                    for _ in range(n):
                        await sleep(0)
                else:
                    await waiter(w, k, n)
                log[i].append(d.n)

        async def main():
            d = box["dut"] = world(total + 5)
            start_clock(d)
            w = {"dut": d}
            for n, k in need:
                w[n] = (k.from_prefix("io_") if k is Handshake else k()).bind(d)
            ev = Event()
            ts = [user_named(create_task(user(i, st, seq, w, ev)), case, i) for i, (st, seq) in enumerate(specs)]
            await d.event.wait()
            await sleep(0)
            ev.set()
            for t in ts:
                await t
            return d.n

        out = run(main, schedule=schedule, reorderable=lambda t: getattr(t.get_coro(), "__name__", "") == "user")
        want = []
        for st, seq in specs:
            c = {"0": 0, "1": 1, "2": 2, "y": 0, "ev": 1}[st]
            l = [c]
            for k, n in seq:
                c += 0 if k == "y" else n
                l.append(c)
            want.append(l)
        extra = {"schedule": schedule.choices} if schedule else {}
        if log != want:
            raise Violation("a wait for n cycles must resume exactly n edges later", got=log, want=want, outcome=repr(out), **extra)
        end = need_ok(out, box["dut"])
        expect(end, max([1] + [l[-1] for l in want]), "the joining task must resume in the cycle the last waiter finished", **extra)
        rec.execution(sum(len(l) for l in want), [tuple(map(tuple, want))], tuple(map(tuple, want)))

    if case["dev"]:
        for _ in explore_schedules(once, case["dev"]):
            pass
    else:
        once(None)
