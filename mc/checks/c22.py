"""C22: debugger commands do exactly what they were asked."""
import contextlib
import io
import itertools
import re

from toffee.debug import get

from ..core import Violation, expect

ID = "C22"
BOUNDS = {
    "quick": "all words of <=3 commands over 44 command lines (steps by default/0/1/3, set/force/release of 2 signals x 2 values, print in 3 forms and by default, list with/without depth and prefix, flush, and 17 malformed ones), "
    "all words of length 4 over 13 of them, steps of up to 4097 cycles, words of up to 80 commands alternating between 2 of 13, 4 pairs of debuggers on two DUTs x all words of length 2",
    "thorough": "words of length 4 over all command lines, length 6 over 11 of them",
}
TECHNIQUE = "explicit-state exploration: every bounded sequence of commands on the real debugger class over a stand-in simulator, every state compared with a reference state machine"
NOTE = "Exhaustive within the stated bounds. Trusts the stand-in simulator (VPI signals with delayed visibility, forcing, ignored equal writes) to behave as picker's."
SIGS = ("top.a", "top.b")
# the last one lies deep in the hierarchy
NAMES = ("top.a", "top.b", "top.sub.c", "top." + ".".join(f"l{i}" for i in range(44)) + ".d")
BAD = (
    "tstep x", "tstep 1.5", "tset", "tset top.a", "tset top.a x", "tset nope 5", "tforce", "tforce top.a", "tforce top.a 1.5", "tforce nope 5",
    "trelease", "trelease nope", "tprint", "tprint nope", "tprint top.a oct", "tlist x", "tflush x",
)
GOOD = (
    "tstep", "tstep 0", "tstep 1", "tstep 3",
    *(f"{c} {s} {v}" for c in ("tset", "tforce") for s in SIGS for v in (0, 3)),
    "trelease top.a", "trelease top.b",
    "tprint top.a", "tprint top.b", "tprint top.a bin", "tprint top.a HEX", "tprint top.b hex", "tprint top.b dec",
    "tlist", "tlist 1", "tlist 2 top", "tlist 0 top.a", "tflush", "tset top.a -2", "tset top.b 1180591620717411303424",
)
CORE = ("tstep", "tstep 3", "tset top.a 3", "tset top.b 3", "tforce top.a 0", "tforce top.a 3", "tforce top.b 3", "trelease top.a", "trelease top.b", "tprint top.a hex", "tset top.a 0", "trelease nope", "tforce nope 5")


def cases(tier):
    th = tier == "thorough"
    for n in range(0, (4 if th else 3) + 1):
        for w in itertools.product(GOOD + BAD, repeat=n):
            yield {"w": list(w)}
    for n in (4, 5, 6) if th else (4,):
        for w in itertools.product(CORE[:11] if n > 4 else CORE, repeat=n):
            yield {"w": list(w)}
    # long steps, and long histories of one command
    for n in (10, 31, 64, 99, 100, 101, 128, 256, 999, 1000, 4097):
        for w in itertools.product(CORE[:10], repeat=2):
            yield {"w": [w[0], f"tstep {n}", w[1], "tstep"]}
    for n in (8, 20, 40):
        for w in itertools.product(CORE, repeat=2):
            yield {"w": list(w) * n}
    for w in itertools.product(GOOD[:14], repeat=2):
        for who in itertools.product((0, 1), repeat=2):
            yield {"w": list(w), "who": list(who)}


class Sig:
    """A VPI signal: a write becomes visible when the combinational logic is refreshed or a cycle passes."""

    def __init__(self, width):
        self.w, self.seen, self.forced, self.mode, self.pending, self.ignore_same, self.last = width, 0, False, "nodelay", None, True, 0

    def W(self):
        return self.w

    @property
    def value(self):
        return self.seen

    @value.setter
    def value(self, v):
        if self.ignore_same and v == self.seen and self.pending is None:
            return
        self.pending = (self.mode, v)

    def SetIgnoreSameDataWrite(self, b):
        self.ignore_same = b

    def AsVPIWriteForce(self):
        self.mode = "force"

    def AsVPIWriteRelease(self):
        self.mode = "release"

    def AsVPIWriteNoDelay(self):
        self.mode = "nodelay"

    def settle(self):
        if self.pending:
            m, v = self.pending
            self.pending = None
            if m == "release":
                self.forced = False
            else:
                self.seen = v
                self.forced = self.forced or m == "force"


class Sim:
    def __init__(self):
        self.s = {"top.a": Sig(8), "top.b": Sig(70)}
        self.n = self.flushed = 0
        self.lists = []

    def RefreshComb(self):
        for s in self.s.values():
            s.settle()

    def Step(self, n=1):
        for _ in range(n):
            self.RefreshComb()
            self.n += 1
            for s in self.s.values():
                if not s.forced:
                    s.seen += 1

    def FlushWaveform(self):
        self.flushed = self.n

    def GetInternalSignal(self, name):
        return self.s.get(name)

    def VPIInternalSignalList(self, prefix, deep):
        self.lists.append((prefix, deep))
        return [n for n in NAMES if n.startswith(prefix) and n.count(".") <= deep]


class Ref:
    def __init__(self):
        self.v = dict.fromkeys(SIGS, 0)
        self.forced = set()
        self.n = 0
        self.flushed = 0

    def do(self, line):
        """Returns the tokens the output must contain, or 'any'."""
        if line in BAD:
            return "any"
        c, *a = line.split()
        if c == "tstep":
            k = int(a[0]) if a else 1
            self.n += k
            self.flushed = self.n
            for s in SIGS:
                if s not in self.forced:
                    self.v[s] += k
        elif c == "tset":
            self.v[a[0]] = int(a[1])
        elif c == "tforce":
            self.v[a[0]] = int(a[1])
            self.forced.add(a[0])
        elif c == "trelease":
            self.forced.discard(a[0])
        elif c == "tprint":
            v = self.v[a[0]]
            f = a[1].lower() if len(a) > 1 else "dec"
            return [{"dec": str(v), "hex": hex(v), "bin": bin(v)}[f]]
        elif c == "tlist":
            d = int(a[0]) if a else 99
            p = a[1] if len(a) > 1 else ""
            return [n for n in NAMES if n.startswith(p) and n.count(".") <= d]
        elif c == "tflush":
            self.flushed = self.n
        return []


def state(sim):
    return {n: (s.seen, s.forced) for n, s in sim.s.items()}, sim.n, sim.flushed


def run_case(case, rec):
    sims = [Sim(), Sim()] if "who" in case else [Sim()]
    refs = [Ref() for _ in sims]
    dbgs = [get(s, readrc=False, nosigint=True) for s in sims]
    states = []
    for line, k in zip(case["w"], case.get("who", [0] * len(case["w"]))):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            stop = dbgs[k].onecmd(line)
        if stop:
            raise Violation("a toffee command ended the debugger's prompt", command=line)
        want = refs[k].do(line)
        toks = [t for t in re.split(r"[\s,;=()]+", out.getvalue()) if t]
        c = line.split()[0]
        if want != "any" and c == "tlist":
            expect([t for t in toks if t.startswith("top.")], want, "tlist must list exactly the signals asked for", command=line)
        elif want != "any" and c == "tprint" and want[0] not in toks:
            raise Violation("tprint must show the current value in the requested form", command=line, got=out.getvalue(), want=want)
        elif want == "any" and line not in ("tset", "tforce", "trelease", "tprint") and not toks:
            raise Violation("a command that cannot be carried out must say so", command=line)
        for i, (s, r) in enumerate(zip(sims, refs)):
            expect(state(s), ({n: (r.v[n], n in r.forced) for n in SIGS}, r.n, r.flushed), "a command must change exactly what it was asked to, at once", command=line, dut=i)
        states.append(repr(state(sims[k])))
    rec.execution(len(case["w"]), states, states[-1] if states else "empty")
