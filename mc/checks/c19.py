"""C19: utility state machines follow their definitions in every state."""
import itertools
import pickle

from toffee.utils import LFSR_64, PLRU, TwoBitsCounter

from ..core import Violation, expect

ID = "C19"
CASE_CPU_S = 300
BOUNDS = {
    "quick": "two-bit counter: all reachable states from all 4 initial values and the default, all outcome words of length <=9 over 2 outcomes (<=4 over 8 truthy/falsy values), pairs of instances; "
    "PLRU: all reachable states for 1..16 ways, all access words of length <=4 for 17..24 ways and <=2 for {31,32,33,64,100,128}, long structured sequences, victims read at every point or not at all; "
    "LFSR: all seeds of weight <=2 and 62..64 over 130 steps, all 12-bit windows at every offset over 3 steps, 8 seeds over 60000 steps",
    "thorough": "PLRU words of length <=5 for 17..20 ways and <=3 for the large ones; LFSR seeds of weight <=3 and 16-bit windows",
}
TECHNIQUE = "explicit-state exploration of the real classes: every reachable state of the bounded instances, every transition compared with a reference state machine"
LIMIT = 200000
MASK = (1 << 64) - 1


def cases(tier):
    th = tier == "thorough"
    yield {"k": "two"}
    for n in range(1, 17):
        yield {"k": "plru", "ways": n}
    for n in list(range(2, 25)) + [31, 32, 33, 64, 100, 128]:
        k = 4 if n <= (20 if th else 24) else 2
        if th:
            k = 5 if n <= 20 else 3
        if n > 16:
            for first in range(n):
                yield {"k": "words", "ways": n, "first": first, "len": k - 1}
        yield {"k": "long", "ways": n}
    for w in (0, 1, 2, 3) if th else (0, 1, 2):
        combos = itertools.combinations(range(64), w)
        while chunk := list(itertools.islice(combos, 400)):
            yield {"k": "lfsr", "seeds": [list(c) for c in chunk], "steps": 130}
    for off in range(0, 65 - 12):
        yield {"k": "window", "off": off, "bits": 16 if th else 12}
    for s in (1, 0xDEADBEEF, MASK, 1 << 63, 0x8000000000000001, 0x123456789ABCDEF0, 3, None):
        yield {"k": "run", "seed": s}
    for s in (-1, -(2**63), 2**64, 2**64 + 5, 2**70 + 2**63):
        yield {"k": "mask", "seed": s}


class RefPLRU:
    """Binary tree over the next power of two: every inner node points away from the subtree accessed last."""

    def __init__(self, ways):
        self.ways = ways
        self.size = 1
        while self.size < ways:
            self.size *= 2
        self.away = {}  # (lo, hi) -> 0 left / 1 right

    def update(self, way):
        lo, hi = 0, self.size
        while hi - lo > 1:
            mid = (lo + hi) // 2
            right = way >= mid
            self.away[(lo, hi)] = 0 if right else 1
            lo, hi = (mid, hi) if right else (lo, mid)

    def get(self):
        lo, hi = 0, self.size
        while hi - lo > 1:
            mid = (lo + hi) // 2
            # a subtree without any existing way can not be chosen
            right = self.away.get((lo, hi), 0) and mid < self.ways
            lo, hi = (mid, hi) if right else (lo, mid)
        return lo

    def key(self):
        return tuple(sorted(k for k, v in self.away.items() if v))


def check_victim(p, r, last, rec=None):
    v = p.get()
    expect(v, p.get(), "reading the victim twice gives two ways", ways=r.ways)
    if not 0 <= v < r.ways:
        raise Violation("the victim is not a legal way", ways=r.ways, victim=v)
    if r.ways >= 2 and last is not None and v == last:
        raise Violation("the victim is the most recently used way", ways=r.ways, way=v)
    expect(v, r.get(), "the victim differs from the tree-PLRU reference", ways=r.ways, last=last, tree=r.away)


def explore(ways, rec):
    p, r = PLRU(ways), RefPLRU(ways)
    check_victim(p, r, None)
    start = pickle.dumps(p)
    seen = {(r.key(), start)}
    todo = [(start, dict(r.away))]
    trans = 0
    while todo:
        blob, away = todo.pop()
        for w in range(ways):
            q = pickle.loads(blob)
            r.away = dict(away)
            q.update(w)
            r.update(w)
            trans += 1
            check_victim(q, r, w)
            nb = pickle.dumps(q)
            k = (r.key(), nb)
            if k not in seen:
                seen.add(k)
                if len(seen) > LIMIT:
                    raise Violation("the PLRU has more states than a tree of its size can have", ways=ways)
                todo.append((nb, dict(r.away)))
    rec.execution(trans, [(ways, k[0]) for k in seen], f"plru{ways}:{len(seen)}")


def lfsr_ref(s):
    b = (s ^ (s >> 1) ^ (s >> 3) ^ (s >> 4)) & 1
    return (s >> 1) | (b << 63)


def follow(seed, steps):
    x = LFSR_64(seed) if seed is not None else LFSR_64()
    s = (1 if seed is None else seed) & MASK
    zero = s == 0
    expect(x.rand, s, "initial state", seed=seed)
    for i in range(steps):
        x.step()
        s = lfsr_ref(s)
        got = x.rand
        if got != s:
            raise Violation("the LFSR leaves its recurrence", seed=seed, step=i, got=hex(got), want=hex(s))
        if got == 0 and not zero:
            raise Violation("the LFSR reached zero", seed=seed, step=i)
    expect(x.rand, s, "reading the state changes it", seed=seed)
    return s


def run_case(case, rec):
    k = case["k"]
    if k == "two":
        trans = 0
        for init in (None, 0, 1, 2, 3):
            for n in range(10):
                for w in itertools.product((True, False), repeat=n):
                    trans += two(init, w)
            for n in range(1, 5):
                for w in itertools.product((True, False, 1, 0, 2, [], "x", None), repeat=n):
                    trans += two(init, w)
        for w in itertools.product([(i, t) for i in (0, 1) for t in (True, False)], repeat=5):
            cs, vs = [TwoBitsCounter(1), TwoBitsCounter(1)], [1, 1]
            for i, t in w:
                cs[i].update(t)
                vs[i] = min(3, vs[i] + 1) if t else max(0, vs[i] - 1)
                expect([c.get_prediction() for c in cs], [int(v >= 2) for v in vs], "two counters influence each other")
                trans += 1
        rec.execution(trans, range(4), "two")
    elif k == "plru":
        explore(case["ways"], rec)
    elif k == "words":
        n = case["ways"]
        cnt = 0
        for w in itertools.product(range(n), repeat=case["len"]):
            p, r = PLRU(n), RefPLRU(n)
            for x in (case["first"], *w):
                p.update(x)
                r.update(x)
                cnt += 1
            check_victim(p, r, x)
        rec.execution(cnt, [(n, case["first"])], f"words{n}")
    elif k == "long":
        n = case["ways"]
        cnt = 0
        for stride in [s for s in range(1, n + 1)][:16]:
            for fill in (0, 1):
                for peek in (0, 1):
                    p, r = PLRU(n), RefPLRU(n)
                    x = 0
                    for i in range(3 * n):
                        x = (x + stride + (i * fill)) % n if i % 3 or not fill else r.get()
                        p.update(x)
                        r.update(x)
                        cnt += 1
                        if peek or i % 5 == 4:
                            check_victim(p, r, x)
        rec.execution(cnt, [(n, "long")], f"long{n}")
    elif k == "lfsr":
        for bits in case["seeds"]:
            s = sum(1 << b for b in bits)
            follow(s, case["steps"])
            follow(MASK ^ s, case["steps"])
        rec.execution(2 * len(case["seeds"]) * case["steps"], [tuple(case["seeds"][0])], "lfsr")
    elif k == "window":
        for v in range(1 << case["bits"]):
            follow((v << case["off"]) & MASK, 3)
        rec.execution(3 << case["bits"], [case["off"]], "window")
    elif k == "run":
        s = follow(case["seed"], 60000)
        rec.execution(60000, [s], "run")
    else:
        follow(case["seed"], 200)
        rec.execution(200, [case["seed"]], "mask")


def two(init, w):
    c = TwoBitsCounter() if init is None else TwoBitsCounter(init)
    v = 2 if init is None else init
    for t in w:
        expect(int(c.get_prediction()), int(v >= 2), "prediction", init=init, word=w)
        c.update(t)
        nv = min(3, v + 1) if t else max(0, v - 1)
        expect(c.counter, nv, "counter after an outcome", init=init, word=w, before=v)
        v = nv
    expect(int(c.get_prediction()), int(v >= 2), "prediction", init=init, word=w)
    return len(w)
