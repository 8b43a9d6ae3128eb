"""C13: bundle instances are independent and rebinding replaces everything."""
import copy
import itertools

import toffee
from toffee import Bundle, WriteMode

from .. import fake
from ..bundles import all_leaves, at, build, children, dict_of, forward, incoming, instance
from ..core import Violation, expect
from ..util import need_ok, quiet, run

ID = "C13"
BOUNDS = {
    "quick": "10 structures x relations {same class, subclass, classes sharing sub-structure templates}; all operation words of length <=3 over 2 instances x {bind to 3 DUTs with/without access, rename, write mode, new rule of the bundle or of one sub-structure, "
    "write, request}; all words of <=5 binds over 3 DUTs x access; up to 14 rebinds over up to 7 DUTs; after every word: all leaves, queries, counts, step clock, request response, write modes and a fresh instance are compared",
    "thorough": "words of length <=4, <=6 binds",
}
ASSUMPTIONS = [
    "the DUTs are stand-ins with the duck type of picker's DUT classes (pins with value/W/IsOutIO/As*Write, event, Step, StepRis)",
]
B2 = {"sigs": ["x", "y"]}
STRUCTS = (
    {"rule": None, "sigs": ["a", "b"]},
    {"rule": ["p", "io_"], "sigs": ["a"], "sub": [["s", {"rule": ["p", "s_"], **B2}]]},
    {"rule": None, "sl": [["v", "v#", 3, None]]},
    {"rule": None, "bl": [["l", "l#_", 3, {"rule": None, **B2}]]},
    {"rule": None, "sigs": ["a"], "sl": [["v", "v#", 11, None]], "sub": [["s", {"rule": ["p", "s_"], "sl": [["w", "w#", 2, "plus"]]}]]},
    {"rule": None, "sub": [["s", {"rule": ["p", "s_"], "sub": [["t", {"rule": ["p", "t_"], **B2}]]}]]},
    {"rule": ["d", "ren"], "sigs": ["a", "c"], "sub": [["s", {"rule": ["p", "s_"], "sigs": ["x"]}]]},
    {"rule": ["r", 0], "bl": [["l", "l#_", 2, {"rule": None, "sl": [["v", "v#", 2, None]], "sub": [["t", {"rule": ["p", "t_"], "sigs": ["x"]}]]}]]},
    {"rule": None, "sigs": ["a", "b", "c"], "decl": "list", "sub": [["s", {"rule": ["p", "s_"], "sigs": ["x", "y"], "decl": "list"}], ["u", {"rule": ["p", "u_"], "sigs": ["x", "y"], "decl": "cls"}]]},
    {"rule": None, "sigs": ["a"], "props": 1, "sub": [["s", {"rule": ["p", "s_"], **B2, "props": 1}]], "bl": [["l", "l#_", 3, {"rule": None, "props": 1, "sigs": ["x"]}]]},
)
RELS = ("same", "subclass", "template")
MODES = ("Imme", "Rise", "Fall")


def alphabet(i, st):
    out = [["bind", i, 0, 1], ["bind", i, 1, 1], ["bind", i, 1, 0], ["bind", i, 2, 1], ["name", i], ["mode", i, "Rise"], ["write", i], ["req", i], ["rule", i]]
    if children(st):
        out.append(["sub", i])
    return out


def valid(w):
    bound = set()
    for op in w:
        if op[0] == "bind":
            bound.add(op[1])
        if op[0] == "req" and op[1] not in bound:
            return False
    return True


def cases(tier):
    th = tier == "thorough"
    for n in range(0, (4 if th else 3) + 1):
        for si, st in enumerate(STRUCTS):
            ab = alphabet(0, st) + alphabet(1, st)
            for w in itertools.product(ab, repeat=n):
                if not valid(w) or (w and w[0][1] == 1):
                    continue
                for ri, rel in enumerate(RELS):
                    if n == 3 and (si + ri) % 3 and not (th or si == 1 and ri == 0) or n == 4 and (ri or si not in (0, 3, 5)):
                        continue
                    yield {"s": si, "rel": rel, "w": [list(o) for o in w]}
    binds = [["bind", 0, d, a] for d in range(3) for a in (1, 0)]
    for n in range(4, (6 if th else 5) + 1):
        for w in itertools.product(binds, repeat=n):
            for si in (1, 7) if n == 4 else (7,):
                yield {"s": si, "rel": "same", "w": [list(o) for o in w]}
    # many rebinds to many DUTs
    for nd in range(1, 8):
        for n in (4, 6, 9, 14):
            for step in (1, 2, 3) if nd > 3 else (1,):
                for si in range(len(STRUCTS)):
                    w = [["bind", 0, k * step % nd, 1] for k in range(n)]
                    yield {"s": si, "rel": "same", "w": w, "duts": 8}
                    yield {"s": si, "rel": "same", "w": [[o[0], k % 2, *o[2:]] for k, o in enumerate(w)] + [["req", 0], ["req", 1]], "duts": 8}
    for n in range(1, 5 if th else 4):
        for w in itertools.product([["bind", 0, 0, 1], ["bind", 0, 1, 1], ["req", 0], ["bind", 1, 0, 1], ["req", 1]], repeat=n + 1):
            if valid(w):
                yield {"s": 3, "rel": "same", "w": [list(o) for o in w]}


def make_duts(st, alt, count=3):
    """D0 has every pin any rule may ask for, D1 lacks some, D2 has only the pins of the last leaf; and again."""
    names = []
    for s in (st, *alt):
        for _, n in incoming(s):
            if n is not None and n not in names:
                names.append(n)
    last = [incoming(s)[-1][1] for s in (st, *alt)]
    sets = [names, [n for i, n in enumerate(names) if i % 3 != 1], [n for n in names if n in last]]
    duts = []
    for k in range(count):
        ns = sets[k % 3]
        pins = [(n, {"out": i % 4 == 3, "width": 16}) for i, n in enumerate(names) if n in ns]
        d = fake.DUT([*pins, "spare"], horizon=60)
        for i, n in enumerate(d._pins):
            d.poke(n, 100 * (k + 1) + i)
        for p in d._pins.values():
            p.xdata.__dict__["mode"] = None
        duts.append(d)
    return duts


def alter_top(st):
    s = copy.deepcopy(st)
    s["rule"] = ["p", "q_"]
    return s


def alter_sub(st):
    """The rule of one sub-structure (the last one) changed: returns (path, struct)."""
    s = copy.deepcopy(st)
    if s.get("sub"):
        name, sub = s["sub"][-1]
        sub["rule"] = ["p", "zz_"]
        return name, s
    # a list element: turn the list into explicit sub-bundles for the reference
    name, fmt, lim, sub = s["bl"].pop()
    s["sub"] = list(s.get("sub", ())) + [[f"{name}[{i}]", {**copy.deepcopy(sub), "rule": ["p", "zz_" if i == lim - 1 else fmt.replace("#", str(i))]}] for i in range(lim)]
    return f"{name}[{lim - 1}]", s


class Inst:
    def __init__(self, obj, st):
        self.obj, self.st = obj, st
        self.name = ""
        self.mode = None
        self.dut = None
        self.access = None
        self.con = {}  # leaf -> (dut index, pin)


def conn_count(duts, insts):
    cnt = [{p: 0 for p in d._pins} for d in duts]
    for x in insts:
        for k, p in x.con.values():
            cnt[k][p] += 1
    return cnt


def apply(op, insts, duts, ref):
    """Execute the operation on the bundle and on the reference (ref: per DUT pin values and modes)."""
    x = insts[op[1]]
    if op[0] == "bind":
        x.obj.bind(duts[op[2]], bool(op[3]))
        x.dut, x.access = op[2], bool(op[3])
        x.con = {p: (op[2], n) for p, n in incoming(x.st) if n in ref[op[2]]}
        set_modes(x, duts, ref)
    elif op[0] == "name":
        x.name = f"n{op[1]}"
        x.obj.set_name(x.name)
    elif op[0] == "mode":
        x.mode = op[2]
        x.obj.set_write_mode(WriteMode[op[2]])
        set_modes(x, duts, ref)
    elif op[0] == "rule":
        x.obj.set_prefix("q_")
        x.st = alter_top(x.st)
    elif op[0] == "sub":
        if "zz_" in str(x.st):
            return
        path, x.st = alter_sub(x.st)
        at(x.obj, path).set_prefix("zz_")
    elif op[0] == "write":
        for i, p in enumerate(all_leaves(x.st)):
            if i % 2:
                continue
            v = 7000 + 100 * op[1] + i
            if p in x.con:
                at(x.obj, p).value = v
                k, n = x.con[p]
                ref[k][n][0] = v
            elif x.dut is None or not x.access:
                try:
                    at(x.obj, p).value = v
                except AttributeError:
                    pass
                else:
                    raise Violation("writing a signal that is connected to nothing was accepted", leaf=p)
            else:
                at(x.obj, p).value = v
    elif op[0] == "req":
        request(op[1], x, duts, ref)


def set_modes(x, duts, ref):
    if x.mode is None:
        return
    for k, n in x.con.values():
        if not duts[k]._pins[n].IsOutIO():
            ref[k][n][1] = x.mode


def request(i, x, duts, ref):
    """Two requests: applied one per cycle on the current DUT only."""
    leaf = next((p for p in all_leaves(x.st) if p in x.con and "[" not in p and "." not in p), None)
    if leaf is None:
        reqs = [{}, {}, {}]
    else:
        reqs = [{leaf: 8000 + j} for j in range(3)]
    seen = []
    for r in reqs:
        r["__funcs__"] = [lambda cycle, bundle, r=r: seen.append((bundle is x.obj, duts[x.dut].n))]
    before = [d.n for d in duts]
    x.obj.process_requests(reqs)
    want = [b + (3 if k == x.dut else 0) for k, b in enumerate(before)]
    expect([d.n for d in duts], want, "process_requests did not advance exactly the DUT the bundle is bound to by one cycle per request", instance=i)
    expect(seen, [(True, before[x.dut] + 1 + j) for j in range(3)], "the requests were not applied once each in consecutive cycles of the current DUT", instance=i)
    if leaf is not None:
        k, n = x.con[leaf]
        ref[k][n][0] = 8002


def observe(x, i, duts, ref, query=()):
    """The instance's whole observable state against the reference."""
    b = x.obj
    expect(b.name, x.name, "bundle name", instance=i)
    for p in all_leaves(x.st):
        try:
            got = at(b, p).value
        except AttributeError:
            got = "AttributeError"
        if p in x.con:
            k, n = x.con[p]
            want = ref[k][n][0]
        elif x.dut is None or not x.access:
            want = "AttributeError"
        else:
            want = None
        expect(got, want, "a bundle signal does not read what its pin holds", instance=i, leaf=p)
    if not query:
        return
    pre = x.name + "." if x.name else ""
    expect(set(b.all_signals_rule()), {pre + p for p in all_leaves(x.st)}, "the advertised rules do not list the signals of the bundle", instance=i)
    for n in query:
        expect(b.detect_connectivity(n), bool(forward(x.st, n)), "detect_connectivity disagrees with the rules of this instance", instance=i, pin=n)


def pins_ok(duts, ref, what):
    for k, d in enumerate(duts):
        expect({n: [d.peek(n), d._pins[n].xdata.__dict__["mode"] and {"imme": "Imme", "rise": "Rise", "fall": "Fall"}[d._pins[n].xdata.__dict__["mode"]]] for n in d._pins}, ref[k], f"{what}: pin values or write modes of a DUT are wrong", dut=k)


def counts_ok(duts, insts):
    cnt = conn_count(duts, insts)
    for k, d in enumerate(duts):
        expect(sorted(Bundle.detect_unconnected_signals(d)), sorted(n for n, c in cnt[k].items() if c == 0), "detect_unconnected_signals disagrees with the bindings in force", dut=k)
        expect(sorted(Bundle.detect_multiple_connections(d)), sorted(n for n, c in cnt[k].items() if c > 1), "detect_multiple_connections disagrees with the bindings in force", dut=k)


def step_ok(x, i, duts):
    d = duts[x.dut]
    n0 = [y.n for y in duts]
    got = []

    async def test():
        toffee.start_clock(d)
        await x.obj.step()
        got.append(d.n - n0[x.dut])
        await x.obj.step(2)
        got.append(d.n - n0[x.dut])

    for y in duts:
        y.event._loop = None  # the event may be used in this run's loop
    d.horizon = d.n + 12
    need_ok(run(test()), d, "bundle.step() must wait for the clock of the DUT the bundle is bound to")
    expect(got, [1, 3], "bundle.step() does not count the cycles of the DUT the bundle is bound to", instance=i)
    d.horizon = d.n + 60


def run_case(case, rec):
    quiet()
    st = copy.deepcopy(STRUCTS[case["s"]])
    if st["rule"] and st["rule"][0] == "d":
        st["rule"][1] = dict_of(st, st["rule"][1])
    alt = [alter_top(st)]
    if children(st):
        alt += [alter_sub(st)[1], alter_sub(alter_top(st))[1]]
    duts = make_duts(st, alt, case.get("duts", 3))
    ref = [{n: [d.peek(n), None] for n in d._pins} for d in duts]
    cls = build(st)
    if case["rel"] == "same":
        classes = [cls, cls]
    elif case["rel"] == "subclass":
        classes = [cls, type("Derived", (cls,), {})]
    else:
        shared = {k: v for k, v in cls.__dict__.items() if not k.startswith("__")}
        classes = [cls, type("Twin", (Bundle,), shared)]
    insts = [Inst(instance(c, st, how), st) for c, how in zip(classes, ("from", "set"))]
    for op in case["w"]:
        apply(op, insts, duts, ref)
    pins_ok(duts, ref, "after the operations")
    query = sorted(({incoming(x.st)[-1][1] for x in insts} | {incoming(STRUCTS[case["s"]])[0][1]}) - {None})
    for i, x in enumerate(insts):
        observe(x, i, duts, ref, query)
    counts_ok(duts, insts)
    for i, x in enumerate(insts):
        if x.dut is not None and x.con:
            step_ok(x, i, duts)
    if case["w"] and case["w"][-1][0] == "bind":
        x = insts[case["w"][-1][1]]
        request(case["w"][-1][1], x, duts, ref)
        apply(["write", case["w"][-1][1]], insts, duts, ref)
    # an instance made afterwards is like the first one was
    fresh = Inst(instance(classes[0], st), st)
    observe(fresh, 2, duts, ref)
    apply(["bind", 2, 0, 1], [*insts, fresh], duts, ref)
    for i, x in enumerate([*insts, fresh]):
        observe(x, i, duts, ref)
    counts_ok(duts, [*insts, fresh])
    pins_ok(duts, ref, "after binding a fresh instance")
    rec.execution(len(case["w"]) + 4, states=[(case["s"], tuple((x.name, x.mode, x.dut, x.access, tuple(sorted(x.con.items()))) for x in insts))], outcome=f"{case['s']}{[x.dut for x in insts]}")
