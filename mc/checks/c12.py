"""C12: bundle assignment and reading are exact inverses on the pins."""
import copy
import functools
import itertools
import re

from toffee import WriteMode

from .. import fake
from ..bundles import all_leaves, at, build, children, forward, incoming, instance, leaves_here
from ..core import Violation, expect
from ..util import CAP, quiet

ID = "C12"
BOUNDS = {
    "quick": "21 structures (<=3 levels, signal lists, bundle lists, up to 12 elements, one of 178 signals, one of 8 levels) x 3 pin direction/connection patterns; all sets of <=3 addressed items (signals, whole lists, wildcards at every level, unknown names at every level) "
    "in nested and dotted form x 2 key orders; round trips from 4 states in both forms and with whole lists as values; set_all x 4 values; randomize_all x 5 ranges x all exclusions of <=2 names x 4 random functions x widths {0,1,8,64,70}; 3 write modes set before, after or between binds to one or two DUTs; all words of <=2 mode settings over all levels with 1 or 2 binds at every position; modes of class-level templates",
    "thorough": "sets of <=4 items, exclusions of <=3 names, words of <=3 mode settings",
}
B3 = {"sigs": ["x", "y"]}
STRUCTS = (
    {"rule": None, "sigs": ["x"]},
    {"rule": None, "sigs": ["a", "b", "c"]},
    {"rule": ["p", "io_"], "sigs": ["a", "b"], "decl": "list"},
    {"rule": None, "sl": [["v", "v#", 3, None]]},
    {"rule": None, "sigs": ["x"], "sl": [["v", "v_#_z", 12, None], ["w", "w#", 1, "plus"]]},
    {"rule": None, "sigs": ["x"], "sub": [["s", {"rule": ["p", "s_"], **B3}]]},
    {"rule": ["d", "ren"], "sigs": ["x"], "sub": [["s", {"rule": ["p", "s_"], **B3}], ["s2", {"rule": ["p", "s2_"], **B3}]]},
    {"rule": ["r", 0], "sub": [["s", {"rule": ["p", "s_"], "sub": [["t", {"rule": ["p", "t_"], **B3}]]}]]},
    {"rule": None, "sigs": ["x"], "sub": [["s", {"rule": ["p", "s_"], "sigs": ["x"], "sub": [["s", {"rule": ["p", "s_"], "sigs": ["x"]}]]}]]},
    {"rule": None, "bl": [["b", "b#_", 2, {"rule": None, **B3}]]},
    {"rule": ["p", "p_"], "sigs": ["x"], "bl": [["b", "b#_", 3, {"rule": None, "sigs": ["x"]}]]},
    {"rule": None, "bl": [["b", "b#_", 12, {"rule": None, "sigs": ["x"]}]]},
    {"rule": None, "sigs": ["z"], "bl": [["b", "b#_", 2, {"rule": None, "sigs": ["x"], "sl": [["v", "v#", 2, None]]}]]},
    {"rule": None, "bl": [["b", "b#_", 2, {"rule": None, "sigs": ["x"], "sub": [["s", {"rule": ["p", "s_"], "sigs": ["y"]}]]}]]},
    {"rule": None, "sub": [["s", {"rule": ["p", "s_"], "sigs": ["z"], "bl": [["b", "b#_", 2, {"rule": None, "sigs": ["x"]}]]}]]},
    {"rule": None, "bl": [["b", "b#_", 2, {"rule": None, "bl": [["c", "c#_", 2, {"rule": None, "sigs": ["x"]}]]}]]},
    {"rule": None, "sl": [["v", "v#", 2, None]], "sub": [["s", {"rule": ["p", "s_"], "sl": [["v", "v#", 2, None]], "sigs": ["v_"]}]]},
    {"rule": None, "sigs": ["a", "value"], "sub": [["data", {"rule": ["p", "d_"], "sigs": ["bits", "ready"]}]]},
    {"rule": None, "sigs": ["x"], "props": 1, "sl": [["v", "v#", 2, None]], "sub": [["s", {"rule": ["p", "s_"], **B3, "props": 1}]], "bl": [["b", "b#_", 2, {"rule": None, "props": 1, "sigs": ["x"]}]]},
    {"rule": None, "sigs": [f"n{i}" for i in range(40)], "sl": [["v", "v#", 105, None]], "bl": [["b", "b#_", 33, {"rule": None, "sigs": ["x"]}]]},
    functools.reduce(lambda st, i: {"rule": ["p", f"l{i}_"] if i < 6 else None, "sigs": ["x"], "sub": [["s", st]]}, range(7), {"rule": ["p", "z_"], **B3}),
)
WIDTHS = (8, 0, 1, 64, 70)


def pattern(st, pat):
    """leaf -> (connected, is output)."""
    out = {}
    lists = set()
    for i, p in enumerate(all_leaves(st)):
        last = p.split(".")[-1]
        inlist = last.endswith("]")
        conn, outp = True, False
        if pat == 1 and i % 3 == 1 and not inlist:
            outp = True
        if pat == 1 and inlist and i % 4 == 3:
            outp = True
        if pat == 2 and i % 3 == 2:
            conn = False
        if pat == 2 and i % 4 == 1:
            outp = True
        out[p] = (conn, outp)
    return out


def nodes(st, pre=""):
    """All levels: (path, struct)."""
    yield pre, st
    for p, c in children(st):
        yield from nodes(c, f"{pre}.{p}" if pre else p)


def items_of(st, pat):
    """Addressable items: ["sig", path] / ["list", path, n] / ["star", level path] / ["unk", path]."""
    con = pattern(st, pat)
    out = []
    for pre, s in nodes(st):
        j = lambda n: f"{pre}.{n}" if pre else n
        for n in s.get("sigs", ()):
            if not con[j(n)][1]:
                out.append(["sig", j(n)])
        for n, fmt, lim, fn in s.get("sl", ()):
            if not any(con[f"{j(n)}[{i}]"][1] for i in range(lim)):
                out.append(["list", j(n), lim])
        out.append(["star", pre])
        out.append(["unk", j("nope")])
    return out


def cases(tier):
    th = tier == "thorough"
    for si, st in enumerate(STRUCTS):
        for pat in range(3):
            its = items_of(st, pat)
            if len(its) > 14:
                its = its[:6] + its[-6:]
            extra = [["unkd", "nope.x"], ["unkd", "b[99].x"], ["unkd", "s.nope.x"]] if len(its) < 12 else []
            for n in range(0, (4 if th else 3) + (len(all_leaves(st)) < 50)):
                for sel in itertools.combinations(range(len(its)), n):
                    for form in ("nested", "dotted"):
                        for rev in (0, 1) if 2 <= n <= 3 else (0,):
                            yield {"k": "assign", "s": si, "pat": pat, "items": [its[i] for i in sel], "form": form, "rev": rev}
            for e in extra:
                for it in its[:4]:
                    yield {"k": "assign", "s": si, "pat": pat, "items": [it, e], "form": "dotted", "rev": 0}
            for state in range(4):
                for form in ("nested", "dotted", "lists") if st.get("bl") else ("nested", "dotted"):
                    yield {"k": "round", "s": si, "pat": pat, "state": state, "form": form}
            for v in (0, 1, 5, 2**70):
                yield {"k": "all", "s": si, "pat": pat, "v": v}
            names = all_leaves(st)
            if len(names) > 8:
                names = names[:3] + names[-3:]
            for n in range(0, (3 if th else 2) + 1):
                for ex in itertools.combinations(names + ["nope"], n):
                    for rng in (None, [0, 0], [3, 5], [0, 2**65], [-4, -2]):
                        for fn in ("lo", "hi", "count", "default") if n < 2 else ("count",):
                            yield {"k": "rand", "s": si, "pat": pat, "ex": list(ex), "rng": rng, "fn": fn}
            # nearly everything excluded
            every = all_leaves(st)
            for keep in every + [None]:
                for ex in ([n for n in every if n != keep], [n for n in reversed(every) if n != keep] + ["nope"]):
                    for rng in (None, [3, 5]):
                        yield {"k": "rand", "s": si, "pat": pat, "ex": ex, "rng": rng, "fn": "count"}
            for m1 in ("Imme", "Rise", "Fall"):
                for when in ("before", "after", "both", "rebind", "between", "same"):
                    yield {"k": "mode", "s": si, "pat": pat, "m": m1, "when": when}
            yield {"k": "msg", "s": si, "pat": pat}
        lv = [p for p, _ in nodes(st)]
        lv = lv if len(lv) <= 5 else lv[:3] + lv[-2:]
        for n in range(1, (3 if th else 2) + 1):
            for where in itertools.product(lv, repeat=n):
                for ms in itertools.product(MODES if n < 2 else MODES[1:], repeat=n):
                    if n == 2 and ms[0] == ms[1] and not th:
                        continue
                    ops = [["m", w, m] for w, m in zip(where, ms)]
                    for i in range(n + 1):
                        yield {"k": "modes", "s": si, "pat": n % 2, "ops": ops[:i] + [["b", 0]] + ops[i:]}
                        for j in range(i + 1, n + 1) if n > 1 else range(i, n + 1):
                            yield {"k": "modes", "s": si, "pat": 1, "ops": ops[:i] + [["b", 0]] + ops[i:j] + [["b", 1]] + ops[j:]}
        subs = [p for p, s in nodes(st) if p and "[" not in p]
        for n in range(1, 3):
            for tp in itertools.combinations(subs, n):
                for ms in itertools.product(MODES, repeat=n):
                    tops = [["t", p, m] for p, m in zip(tp, ms)]
                    for ops in ([["b", 0]], [["b", 0], ["b", 1]], [["m", "", "Fall"], ["b", 0]], [["b", 0], ["m", subs[-1], "Imme"], ["b", 1]], [["m", tp[0], "Imme"], ["b", 0]]):
                        yield {"k": "modes", "s": si, "pat": 0, "ops": tops + ops}


MODES = ("Imme", "Rise", "Fall")
PINMODE = {"Imme": "imme", "Rise": "rise", "Fall": "fall"}


def with_modes(st, modes, pre=""):
    """The structure whose class-level templates have modes set."""
    st = dict(st)
    if "sub" in st:
        st["sub"] = [[n, with_modes({**c, "mode": modes.get(f"{pre}{n}")}, modes, f"{pre}{n}.")] for n, c in st["sub"]]
    return st


def setup(case):
    quiet()
    st = STRUCTS[case["s"]]
    tm = {p: m for k, p, m in (o for o in case.get("ops", ()) if o[0] == "t")}
    if tm:
        st = with_modes(st, tm)
    con = pattern(st, case["pat"])
    inc = dict(incoming(st))
    pins = [(inc[p], {"out": con[p][1], "width": WIDTHS[i % 5]}) for i, p in enumerate(con) if con[p][0]]
    dut = fake.DUT(pins + ["other", "x_other"], log_writes=True)
    b = instance(build(st), st)
    pin_of = {p: inc[p] for p in con if con[p][0]}
    return st, con, dut, b, pin_of


def fill(dut, pins, base):
    for i, p in enumerate(pins):
        dut.poke(p, base + i)


def put(d, path, value, st, form):
    """Insert the item into a nested dictionary."""
    parts = re.findall(r"[^.\[\]]+|\[\d+\]", path) if path else []
    cur = d
    i = 0
    lims = {n: (lim, s) for n, fmt, lim, s in st.get("bl", ())}
    subs = dict(st.get("sub", ()))
    while True:
        p = parts[i]
        if i == len(parts) - 1:
            cur[p] = value
            return
        if p in lims and parts[i + 1].startswith("["):
            lim, st = lims[p]
            cur = cur.setdefault(p, [{} for _ in range(lim)])[int(parts[i + 1][1:-1])]
            i += 2
        else:
            st = subs[p]
            cur = cur.setdefault(p, {})
            i += 1
        lims = {n: (lim, s) for n, fmt, lim, s in st.get("bl", ())}
        subs = dict(st.get("sub", ()))


def run_case(case, rec):
    globals()["run_" + case["k"]](case, rec)


def run_assign(case, rec):
    st, con, dut, b, pin_of = setup(case)
    b.bind(dut)
    fill(dut, list(dut.snapshot()), 300)
    want = dut.snapshot()
    touched = set()
    d = {}
    vals = [0, 7, False, 2**66, 11, 1]
    entries = list(case["items"])
    # wildcards of outer levels come first in a dotted dictionary
    stars = sorted([e for e in entries if e[0] == "star"], key=lambda e: e[1].count(".") + bool(e[1]))
    rest = [e for e in entries if e[0] != "star"]
    if case["rev"]:
        rest.reverse()
    ordered = stars + rest if not (case["rev"] and case["form"] == "nested") else rest + stars[::-1]
    value = {}
    for i, e in enumerate(entries):
        value[tuple(map(str, e))] = [vals[(i + k) % 6] for k in range(e[2])] if e[0] == "list" else vals[i % 6]
    for e in ordered:
        v = value[tuple(map(str, e))]
        key = e[1] if e[0] != "star" else (f"{e[1]}.*" if e[1] else "*")
        if case["form"] == "nested":
            put(d, key, v, st, None)
        else:
            d[key] = v
    unknown = [e[1] for e in entries if e[0].startswith("unk")]
    for e in stars:
        v = value[tuple(map(str, e))]
        pre = e[1]
        for leaf, p in pin_of.items():
            if (not pre or leaf.startswith(pre + ".")) and not con[leaf][1]:
                want[p] = v
                touched.add(p)
    for e in rest:
        v = value[tuple(map(str, e))]
        if e[0] == "sig" and e[1] in pin_of:
            want[pin_of[e[1]]] = v
            touched.add(pin_of[e[1]])
        elif e[0] == "list":
            for i in range(e[2]):
                if f"{e[1]}[{i}]" in pin_of:
                    p = pin_of[f"{e[1]}[{i}]"]
                    want[p] = v[i]
                    touched.add(p)
    keep = copy.deepcopy(d)
    dut.writes.clear()
    b.assign(d, multilevel=case["form"] == "nested")
    got = dut.snapshot()
    if d != keep or repr(d) != repr(keep):
        raise Violation("assign must leave the caller's dictionary unchanged", got=d, want=keep)
    if any(got[p] is not want[p] and not (got[p] == want[p] and type(got[p]) is type(want[p])) for p in want):
        raise Violation("assign must write exactly the given values", d=d, got={p: got[p] for p in got if got[p] != want[p]}, want={p: want[p] for p in got if got[p] != want[p]})
    expect({p for p, _ in dut.writes}, touched, "assign must write exactly the addressed pins", d=d)
    errs = CAP.errors()
    if len(errs) != len(unknown) or any(not any(u.split(".")[-1] in m for m in errs) for u in unknown):
        raise Violation("assign must report exactly the unknown names", got=errs, want=unknown)
    rec.execution(1 + len(entries), [(case["s"], case["pat"], repr(d), case["form"])], (len(entries), len(touched), len(unknown)))


def ref_dict(st, val, pre=""):
    j = lambda n: f"{pre}.{n}" if pre else n
    d = {n: val(j(n)) for n in st.get("sigs", ())}
    for n, fmt, lim, fn in st.get("sl", ()):
        d[n] = [val(f"{j(n)}[{i}]") for i in range(lim)]
    for n, c in st.get("sub", ()):
        d[n] = ref_dict(c, val, j(n))
    for n, fmt, lim, c in st.get("bl", ()):
        d[n] = [ref_dict(c, val, f"{j(n)}[{i}]") for i in range(lim)]
    return d


def ref_flat(st, val):
    out = {}
    for pre, s in nodes(st):
        j = lambda n: f"{pre}.{n}" if pre else n
        for n in s.get("sigs", ()):
            out[j(n)] = val(j(n))
        for n, fmt, lim, fn in s.get("sl", ()):
            out[j(n)] = [val(f"{j(n)}[{i}]") for i in range(lim)]
    return out


def run_round(case, rec):
    st, con, dut, b, pin_of = setup(case)
    b.bind(dut)
    names = list(dut.snapshot())
    for i, p in enumerate(names):
        dut.poke(p, (0, i, 1000 + 7 * i, (2**64 + i) * (i % 2))[case["state"]])
    before = dut.snapshot()
    ml = case["form"] == "nested"
    dut.writes.clear()
    d = b.as_dict(multilevel=ml)
    if dut.writes:
        raise Violation("as_dict must not write any pin", got=dut.writes)
    val = lambda leaf: before[pin_of[leaf]] if leaf in pin_of else None
    expect(d, ref_dict(st, val) if ml else ref_flat(st, val), "as_dict must return exactly the current values")
    if ml and b.as_dict() != d:
        raise Violation("as_dict is multilevel by default")
    for i, p in enumerate(names):
        dut.poke(p, 77000 + i)
    for leaf, p in pin_of.items():
        if con[leaf][1]:
            dut.poke(p, before[p])
    if case["form"] == "lists":  # a dotted dictionary that addresses bundle lists as a whole
        flat, d = d, {}
        for k, v in flat.items():
            m = next((m for n, _, lim, _ in st["bl"] if (m := re.match(rf"({n})\[(\d+)\]\.(.*)", k))), None)
            if m:
                lim = next(lim for n, _, lim, _ in st["bl"] if n == m[1])
                d.setdefault(m[1], [{} for _ in range(lim)])[int(m[2])][m[3]] = v
            else:
                d[k] = v
    keep = copy.deepcopy(d)
    other = {p: dut.peek(p) for p in names if p not in pin_of.values()}
    b.assign(d, multilevel=ml)
    expect(d, keep, "assign must leave the caller's dictionary unchanged")
    after = dut.snapshot()
    for leaf, p in pin_of.items():
        expect(after[p], before[p], f"assigning back what as_dict returned must restore {leaf}")
    expect({p: after[p] for p in other}, other, "pins of no signal must not change")
    expect(CAP.errors(), [], "no error may be logged")
    expect(b.as_dict(multilevel=ml), flat if case["form"] == "lists" else keep, "reading again must give the same values")
    rec.execution(3, [(case["s"], case["pat"], repr(keep))], ("round", len(pin_of)))


def run_all(case, rec):
    st, con, dut, b, pin_of = setup(case)
    b.bind(dut)
    fill(dut, list(dut.snapshot()), 300)
    want = dut.snapshot()
    for leaf, p in pin_of.items():
        if not con[leaf][1]:
            want[p] = case["v"]
    b.set_all(case["v"])
    expect(dut.snapshot(), want, "set_all must write exactly the input pins")
    rec.execution(1, [(case["s"], case["pat"], case["v"])], ("all", case["s"]))


def run_rand(case, rec):
    st, con, dut, b, pin_of = setup(case)
    b.bind(dut)
    fill(dut, list(dut.snapshot()), 10**30)
    before = dut.snapshot()
    calls = []

    def fn(lo, hi):
        calls.append((lo, hi))
        return {"lo": lo, "hi": hi, "count": lo + (len(calls) % (hi - lo + 1)), "default": 0}[case["fn"]]

    kw = {} if case["fn"] == "default" else {"random_func": fn}
    if case["ex"]:
        kw["exclude_signals"] = list(case["ex"])
    if case["rng"]:
        kw["value_range"] = tuple(case["rng"])
    dut.writes.clear()
    b.randomize_all(**kw)
    after = dut.snapshot()
    sel = [leaf for leaf in pin_of if not con[leaf][1] and leaf not in case["ex"]]
    expect(sorted(p for p, _ in dut.writes), sorted(pin_of[x] for x in sel), "randomize_all must write exactly the selected input pins")
    ranges = []
    for leaf in sel:
        p = pin_of[leaf]
        w = dut._pins[p].W()
        lo, hi = case["rng"] or (0, (1 << max(w, 1)) - 1)
        ranges.append((lo, hi))
        v = after[p]
        if not lo <= v <= hi:
            raise Violation(f"randomized value of {leaf} is out of range", got=v, want=(lo, hi))
        if case["fn"] in ("lo", "hi"):
            expect(v, lo if case["fn"] == "lo" else hi, f"the random function decides the value of {leaf}")
    if case["fn"] != "default":
        expect(sorted(calls), sorted(ranges), "the random function must get the range of every selected pin")
    expect({p: after[p] for p in after if p not in [pin_of[x] for x in sel]}, {p: before[p] for p in after if p not in [pin_of[x] for x in sel]}, "other pins must keep their values")
    rec.execution(1 + len(sel), [(case["s"], case["pat"], tuple(case["ex"]), repr(case["rng"]))], ("rand", len(sel)))


def run_mode(case, rec):
    st, con, dut, b, pin_of = setup(case)
    m = getattr(WriteMode, case["m"])
    when = case["when"]
    if when in ("before", "both", "rebind"):
        b.set_write_mode(m)
    duts = [dut]
    if when in ("rebind", "between"):
        dut2 = setup(case)[2]
        duts.append(dut2)
    b.bind(dut)
    if when in ("after", "between", "same"):
        b.set_write_mode(m)
    if when in ("rebind", "between"):
        b.bind(dut2)
    elif when == "same":
        for x in dut._pins.values():
            x.xdata.__dict__.pop("mode", None)
        b.bind(dut)
    if when == "both":
        m = {"Imme": WriteMode.Rise, "Rise": WriteMode.Fall, "Fall": WriteMode.Imme}[case["m"]]
        {WriteMode.Rise: b.set_write_mode_as_rise, WriteMode.Fall: b.set_write_mode_as_fall, WriteMode.Imme: b.set_write_mode_as_imme}[m]()
    want = {WriteMode.Rise: "rise", WriteMode.Fall: "fall", WriteMode.Imme: "imme"}[m]
    for d in duts:
        for p, x in d._pins.items():
            mine = [leaf for leaf, q in pin_of.items() if q == p]
            got = x.xdata.__dict__.get("mode")
            expect(got, want if mine and not con[mine[0]][1] else None, f"write mode of pin {p}", dut=duts.index(d))
    rec.execution(2 + len(duts), [(case["s"], case["pat"], case["m"], when)], ("mode", want))


def run_modes(case, rec):
    st, con, dut, b, pin_of = setup(case)
    duts = [dut, setup({**case, "ops": ()})[2]]
    want = [{}, {}]
    now = {}  # leaf -> mode last set for it
    cur = None
    # a template is created after the templates inside it
    for op in sorted((o for o in case["ops"] if o[0] == "t"), key=lambda o: -o[1].count(".")) + [o for o in case["ops"] if o[0] != "t"]:
        if op[0] == "b":
            cur = op[1]
            b.bind(duts[cur])
            want[cur].update(now)
            continue
        below = [leaf for leaf in con if not op[1] or leaf.startswith(op[1] + ".") or leaf.startswith(op[1] + "[")]
        if op[0] == "m":
            lv = at(b, op[1]) if op[1] else b
            lv.set_write_mode(getattr(WriteMode, op[2]))
            if cur is not None:
                want[cur].update({leaf: op[2] for leaf in below})
        now.update({leaf: op[2] for leaf in below})
    for d, w in zip(duts, want):
        for leaf, p in pin_of.items():
            m = w.get(leaf)
            expect(d._pins[p].xdata.__dict__.get("mode"), PINMODE[m] if m and not con[leaf][1] else None, f"write mode of {leaf}", dut=duts.index(d))
        for p in ("other", "x_other"):
            expect(d._pins[p].xdata.__dict__.get("mode"), None, f"pin {p} belongs to no signal")
    rec.execution(len(case["ops"]), [(case["s"], case["pat"], repr(case["ops"][: i + 1])) for i in range(len(case["ops"]))], ("modes", repr(sorted(now.items()))))


def run_msg(case, rec):
    st, con, dut, b, pin_of = setup(case)
    b.bind(dut)
    seen = []

    class Msg:
        def __bundle_assign__(self, bundle):
            seen.append(bundle)
            bundle.set_all(9)

    before = dut.snapshot()
    b.assign(Msg())
    if len(seen) != 1 or seen[0] is not b:
        raise Violation("assign must hand the bundle to the message's __bundle_assign__ once")
    want = {**before, **{p: 9 for leaf, p in pin_of.items() if not con[leaf][1]}}
    expect(dut.snapshot(), want, "only the message assigns")
    rec.execution(1, [(case["s"], "msg")], "msg")
