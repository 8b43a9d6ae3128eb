"""C11: bind connects exactly the pins the connection rules name."""
import itertools
import logging
import re

from toffee import Bundle

from .. import fake
from ..bundles import REGEX, all_leaves, at, build, forward, incoming, instance
from ..core import Violation, expect
from ..util import CAP, quiet

ID = "C11"
BOUNDS = {
    "quick": "structures: 1 level (14 rules x 14 contents, class-level, from lists and from code), 2 levels (14 x 14 rules x 3 x 4 contents, sub-bundles and bundle lists), 3 levels (6 rules each x 3 contents); lists of up to 12 elements, 5 index functions; bundles of 178 signals and of 8 levels; "
    "pin sets: everything present, each one missing (<=8 leaves), every subset (<=4 leaves), plus 9 decoy families; both access modes, two ways of construction, second binding of the same pins; every pin name x leaf query (<=5 leaves; own and neighbouring leaves beyond)",
    "thorough": "2 levels with 12 x 12 contents, 3 levels with 14 rules on the outer two levels, every subset for <=6 leaves, every query",
}
ASSUMPTIONS = ["no two bundle signals of a structure claim one pin and no two pins one signal", "every name a dictionary or expression maps to is used by one signal only"]
RULES = [None, ["p", ""], ["p", "io_"], ["p", "a"], ["p", "io_a_"], ["d", "ren"], ["d", "part"], ["d", "swap"]] + [["r", i] for i in range(len(REGEX))]
CONTENT = (
    {"sigs": ["x"]},
    {"sigs": ["x", "y"]},
    {"sigs": ["x", "x1", "x_1"]},
    {"sigs": ["x", "y"], "decl": "list"},
    {"sl": [["v", "v#", 3, None]]},
    {"sl": [["v", "v_#_z", 12, None]]},
    {"sigs": ["x"], "sl": [["v", "#v", 2, "plus"]]},
    {"sl": [["v", "v#_#", 11, "hex"]]},
    {"sigs": ["v"], "sl": [["w", "v#", 2, None], ["u", "u#", 1, "rev"]]},
    {"sigs": ["ready", "valid"], "sl": [["bits", "bits_#", 2, "pad"]]},
    {"sigs": ["a", "aa"]},
    {"sigs": ["q", "x_q"], "decl": "list"},
    {"sigs": ["x", "x_1"], "decl": "cls"},
    {"sigs": ["k", "x"], "decl": "xport"},
)
PROPS = ({"sigs": ["x", "y"], "props": 1}, {"sigs": ["x"], "sl": [["v", "v#", 3, None]], "props": 1}, {"sigs": ["x", "y"], "decl": "list", "props": 1})


def level(rule, content, sub=(), bl=()):
    st = {"rule": rule, **content}
    if sub:
        st["sub"] = list(sub)
    if bl:
        st["bl"] = list(bl)
    return st


def structures(tier):
    th = tier == "thorough"
    for c in CONTENT:
        for r in RULES:
            yield level(r, c)
    # classes with properties
    for c in PROPS:
        for r in RULES:
            yield level(r, c)
            yield level(r, c, sub=[["s", level(["p", "s_"], PROPS[0])]])
            yield level(r, c, bl=[["b", "b#_", 2, level(None, PROPS[0])]])
    outer = CONTENT if th else (CONTENT[1], CONTENT[3], CONTENT[6])
    inner = CONTENT if th else (CONTENT[0], CONTENT[2], CONTENT[4], CONTENT[9])
    for r1, r2 in itertools.product(RULES, repeat=2):
        for c1, c2 in itertools.product(outer, inner):
            yield level(r1, c1, sub=[["s", level(r2, c2)]])
    for r1 in RULES:
        for c2 in inner:
            yield level(r1, {}, sub=[["s1", level(["p", "s_"], c2)], ["s2", level(["p", "s_t_"], c2)]])
            yield level(r1, {"sigs": ["z"]}, sub=[["s1", level(["r", 1], c2)], ["s2", level(["p", "k_"], c2)], ["s3", level(["d", "ren"], {"sigs": ["m"]})]])
            for fmt, n in (("b#_", 2), ("b_#_", 12), ("#b", 3), ("b#x#_", 2)):
                yield level(r1, {"sigs": ["z"]}, bl=[["b", fmt, n, level(None, c2)]])
            for fmt, n, fn in (("b#_", 3, "plus"), ("b#_", 11, "hex"), ("#b_", 2, "rev"), ("b_#_", 2, "pad")):
                yield level(r1, {}, bl=[["b", fmt, n, level(None, c2), fn]])
            yield level(r1, {}, sub=[["s", level(["p", "s_"], {"sigs": ["z"]}, bl=[["b", "b#_", 2, level(None, c2)]])]])
            yield level(r1, {}, bl=[["b", "b#_", 2, level(None, {"sigs": ["z"]}, sub=[["s", level(["p", "s_"], c2)]])]])
            yield level(r1, {}, bl=[["b", "b#_", 2, level(None, {}, bl=[["c", "c#_", 2, level(None, c2)]])]])
    # several branches below one another whose prefixes (or expressions) all match the same pins
    br = (["p", "x_"], ["r", 4], ["r", 0], ["p", ""])
    for r1, r2 in itertools.product(RULES if th else RULES[:6:2] + RULES[5::3], (["p", "t_"], ["p", ""], ["d", "ren"], ["r", 0], None) if th else (["p", "t_"], ["d", "ren"], ["r", 0])):
        for b1, b2 in itertools.product(br, repeat=2) if th else itertools.combinations(br, 2):
            def two():
                return [["m", level(b1, {"sigs": ["a", "bits_c"]})], ["o", level(b2, {"sigs": ["b", "bits_d"]})]]
            yield level(r1, {"sigs": ["z"]}, sub=[["s", level(r2, {}, sub=two())]])
            yield level(r1, {}, sub=[["s", level(r2, {}, sub=two())], ["e", level(r2, {}, sub=[["w", level(b1, {"sigs": ["g"]})]])]])
            if th or r1 in RULES[:4:2]:
                yield level(None, {}, sub=[["f", level(r1, {}, sub=[["s", level(r2, {}, sub=two())]])]])
                yield level(r1, {}, bl=[["b", "b#_", 2, level(None, {}, sub=two())]])
                yield level(r1, {}, sub=[["s", level(r2, {}, sub=two(), bl=[["c", "c#_", 2, level(None, {}, sub=[["u", level(b1, {"sigs": ["k"]})]])], ["ca", "c#_x_", 2, level(None, {"sigs": ["l"]})]])]])
    # wide and deep ones
    wide = {"sigs": [f"n{i}" for i in range(40)], "sl": [["v", "v#", 105, None]], "bl": [["b", "b#_", 33, level(None, CONTENT[0])]]}
    for r in RULES:
        few = 12 if r and r[0] == "d" else 40  # binding by a dictionary takes cubic time
        yield level(r, wide if few > 12 else {"sigs": wide["sigs"][:12], "sl": [["v", "v#", 14, None]]})
        if not th and RULES.index(r) % 3 != 2:
            continue
        yield level(None, {"sigs": ["z"]}, sub=[["s", level(r, {"sigs": wide["sigs"][:few], "decl": "list"})], *([f"s{i}", level(["p", f"t{i}_"], CONTENT[1])] for i in range(17))])
    for r1, r2 in itertools.product(RULES, RULES if th else RULES[1::3]):
        for n in (4, 6, 8) if th else (4, 7):
            st = level(["p", "z_"], CONTENT[1])
            for i in range(n):
                st = level((["p", f"l{i}_"], r1, r2)[i % 3] if i < n - 1 else r1, {"sigs": ["x"]}, sub=[["s", st]])
            yield st
    r3 = RULES[1:3] + RULES[5:9:2] + RULES[8:10]
    for a, b, c in itertools.product(RULES if th else r3, RULES if th else r3, r3):
        for c3 in (CONTENT[0], CONTENT[2], CONTENT[4]):
            yield level(a, {"sigs": ["k"]}, sub=[["s", level(b, {"sigs": ["l"]}, sub=[["t", level(c, c3)], ["t2", level(["p", "t2_"], {"sigs": ["x"]})]])]])


def decoys(names):
    out = []
    for n in names[:6]:
        out += [n + "_", n + "0", "_" + n, "z" + n, n.upper(), n[:-1], n + "_" + n, n.replace("_", ""), n[1:]]
    return [d for d in dict.fromkeys(out) if d and d not in names and d.isidentifier()]


def injective(st, pins):
    seen = {}
    for p in pins:
        f = forward(st, p)
        if len(f) > 1:
            return False
        if f:
            if f[0] in seen:
                return False
            seen[f[0]] = p
    return True


def cases(tier):
    th = tier == "thorough"
    for st in structures(tier):
        inc = incoming(st)
        names = [n for _, n in inc if n is not None]
        if len(set(names)) != len(names) or any(not n.isidentifier() for n in names):
            continue
        dec = [d for d in decoys(names)]
        n = len(names)
        if n <= (6 if th else 4):
            subsets = [[names[i] for i in range(n) if m >> i & 1] for m in reversed(range(1 << n))]
        else:
            subsets = [names] + [names[:i] + names[i + 1:] for i in range(n)] + [[]]
        if not th and n > 8:
            subsets = subsets[:3] + subsets[-3:]
        if n > 25:
            subsets = subsets[: 5 if th else 1] + subsets[-2:]
        for k, sub in enumerate(subsets):
            pins = sub + (dec if k != 1 else [])
            good = injective(st, pins)
            if not good:
                pins = sub
                if not injective(st, pins):
                    continue
            yield {"st": st, "pins": pins, "acc": 1, "how": ("from", "set")[k % 2], "name": "" if k % 3 else "top", "q": 1 if k < 2 and n < 40 else 0, "all": int(th)}
            if not th and 2 <= k < len(subsets) - 2:
                continue
            yield {"st": st, "pins": pins, "acc": 0, "how": ("set", "from")[k % 2], "name": "", "q": 0}


def read(sig):
    try:
        return ("v", sig.value)
    except AttributeError:
        return ("raise",)


def run_case(case, rec):
    quiet(logging.WARNING)
    st, pins = case["st"], case["pins"]
    cls = build(st)
    b = instance(cls, st, case["how"])
    str(b)
    if case["name"]:
        b.set_name(case["name"])
    dut = fake.DUT(pins)
    for i, p in enumerate(pins):
        dut.poke(p, 1000 + i)
    r = b.bind(dut, unconnected_signal_access=bool(case["acc"]))
    if r is not b:
        raise Violation("bind must return the bundle")
    leaves = all_leaves(st)
    target = {}
    for p in pins:
        for leaf in forward(st, p):
            target[leaf] = p
    pre = case["name"] + "." if case["name"] else ""
    warned = sorted(m.group(1) for lv, t in CAP.records if lv == "WARNING" and (m := re.search('"([^"]*)" *is not found', t)))
    expect(warned, sorted(pre + leaf for leaf in leaves if leaf not in target), "exactly the signals left unconnected must be named in a warning")
    check_connections(b, dut, leaves, target, case["acc"])
    listed = list(b.all_signals())
    expect(sorted(n for n, _ in listed), sorted(leaves), "all_signals must list every signal of the structure")
    for n, sig in listed:
        if sig is not at_or_none(b, n):
            raise Violation(f"all_signals lists another object as {n}")
        if "." not in n and "[" not in n and b[n] is not sig:
            raise Violation(f"indexing the bundle with {n!r} must give that signal")
    str(b)
    expect(sorted(Bundle.detect_unconnected_signals(dut)), sorted(p for p in pins if p not in target.values()), "detect_unconnected_signals")
    expect(list(Bundle.detect_multiple_connections(dut)), [], "detect_multiple_connections")
    if case["q"]:
        all_names = sorted(set(pins) | {n for _, n in incoming(st) if n})
        for p in all_names:
            f = forward(st, p)
            expect(bool(b.detect_connectivity(p)), bool(f), f"detect_connectivity({p!r})")
            near = leaves
            if len(leaves) > 5 and not case.get("all"):
                i = leaves.index(f[0]) if f else len(p) % len(leaves)
                near = {leaves[j % len(leaves)] for j in (i - 1, i, i + 1, 0)}
            for leaf in near:
                if len(f) <= 1:
                    expect(bool(b.detect_specific_connectivity(p, leaf)), f == [leaf], f"detect_specific_connectivity({p!r}, {leaf!r})")
        kinds = set()
        rules_of(st, kinds)
        if "r" not in kinds:
            rules = b.all_signals_rule()
            want = {pre + leaf: n for leaf, n in incoming(st)}
            expect(sorted(rules), sorted(want), "all_signals_rule must list every signal")
            for k, n in want.items():
                if n is not None:
                    expect(rules[k], n, f"advertised rule of {k}")
                elif rules[k] in pins:
                    raise Violation(f"the advertised rule of {k} names a pin although no rule maps to it", got=rules[k])
        # queries must not change any connection
        check_connections(b, dut, leaves, target, case["acc"])
        # a second bundle on the same pins
        b2 = instance(build(st), st)
        b2.bind(dut, unconnected_signal_access=bool(case["acc"]))
        check_connections(b, dut, leaves, target, case["acc"])
        check_connections(b2, dut, leaves, target, case["acc"])
        expect(sorted(Bundle.detect_multiple_connections(dut)), sorted(target.values()), "pins used by two bundles")
        expect(sorted(Bundle.detect_unconnected_signals(dut)), sorted(p for p in pins if p not in target.values()), "detect_unconnected_signals with two bundles")
    if CAP.errors():
        raise Violation("bind must not log an error", got=CAP.errors()[:3])
    rec.execution(len(leaves) + len(pins), [(repr(st), tuple(sorted(target.items())))], (len(leaves), len(target)))


def at_or_none(b, leaf):
    try:
        return at(b, leaf)
    except AttributeError:
        return None


def rules_of(st, kinds):
    if st["rule"]:
        kinds.add(st["rule"][0])
    for _, c in st.get("sub", ()):
        rules_of(c, kinds)
    for x in st.get("bl", ()):
        rules_of({**x[3], "rule": ["p", ""]}, kinds)


def check_connections(b, dut, leaves, target, acc):
    for k, leaf in enumerate(leaves):
        try:
            sig = at(b, leaf)
        except AttributeError:
            if leaf in target or acc:
                raise Violation(f"{leaf} is not accessible")
            continue  # an unconnected signal of a name list raises on access
        if leaf in target:
            p = target[leaf]
            got = read(sig)
            if got != ("v", dut.peek(p)):
                raise Violation(f"{leaf} must be connected to pin {p}", got=got, want=dut.peek(p), connections=sorted(target.items()))
            before = dut.snapshot()
            sig.value = 5000 + k
            after = dut.snapshot()
            expect({q for q in after if after[q] != before[q]}, {p}, f"writing {leaf} must change exactly pin {p}")
            dut.poke(p, before[p])
        elif acc:
            expect(read(sig), ("v", None), f"unconnected {leaf} must read None")
            before = dut.snapshot()
            sig.value = 7
            expect(dut.snapshot(), before, f"writing unconnected {leaf} must be ignored")
        else:
            expect(read(sig), ("raise",), f"reading unconnected {leaf} must raise")
            try:
                sig.value = 7
            except AttributeError:
                continue
            raise Violation(f"writing unconnected {leaf} must raise")
