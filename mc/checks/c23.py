"""C23: the hierarchical bundle generator covers every pin exactly once."""
import hashlib
import importlib.util
import itertools
import json
import os
import subprocess
import sys
import tempfile

from toffee import Bundle

from .. import fake
from ..core import REPO, Violation, expect
from ..util import quiet

ID = "C23"
BOUNDS = {
    "quick": "all pin trees of <=5 nodes over 3 names and depth <=4, <=4 nodes over names that are prefixes of each other or Python keywords, where every node may be a pin, a group or both; x 3 iteration orders of the generator's sets; "
    "all pairs of 9 sub-trees under two or three groups, chains of depth <=8, groups of 12 and 40 pins, 3 spellings of a pin; command line runs",
    "thorough": "trees of <=6 nodes",
}
NOTE = (
    "Exhaustive within the stated bounds, on the real generator and the real Bundle. Names start with a letter, top-level names are no Python keywords and no names a Bundle uses itself, and the joined names of all pins and groups are distinct. "
    "Trusts the stand-in DUT to behave as picker's classes."
)
LEAVES = ({"Pin": "x", "High": 3, "Low": 0}, {"_": True}, {"": "signal", "Pins": ["a", "b"]})


def _hash(salt):
    """What hash() gives for strings in a process with another hash seed."""
    return lambda s: int.from_bytes(hashlib.blake2b(s.encode(), digest_size=7, salt=salt).digest(), "big")


HASHES = tuple(map(_hash, (b"0", b"1", b"2")))
SUBS = ({".": 1}, {"x": {".": 1}}, {".": 1, "x": {".": 1}}, {"x": {".": 1}, "y": {".": 1}}, {"x": {"y": {".": 1}}}, {".": 1, "x": {"y": {".": 1}}}, {"x": {".": 1, "y": {".": 1}}},
        {".": 1, "x": {".": 1, "y": {"z": {".": 1}}}}, {"x": {"x": {".": 1}, "y": {".": 1}}, "y": {"x": {".": 1}, "y": {".": 1}}})


def trees(names, n, depth, every=None):
    """All groups with exactly n nodes below; a key '.' marks a pin."""
    every = every or names
    if n == 0:
        yield {}
        return
    if depth == 0 or not names:
        return
    first, rest = names[0], names[1:]
    yield from trees(rest, n, depth, every)
    for k in range(1, n + 1):
        for sub in trees(every, k - 1, depth - 1, every):
            for leaf in (1, 0):
                if leaf or sub:
                    for others in trees(rest, n - k, depth, every):
                        yield {first: {**({".": 1} if leaf else {}), **sub}, **others}


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 7 if th else 6):
        for i, t in enumerate(trees(("a", "b", "c"), n, 4)):
            for h in range(3) if n < 5 else (i % 3,):
                yield {"t": t, "h": h, "leaf": (i + h) % 3}
    for n in range(1, 6 if th else 5):
        for i, t in enumerate(trees(("a", "a_b", "b"), n, 4)):
            yield {"t": t, "h": i % 3, "leaf": i % 3}
        for i, t in enumerate(trees(("in", "is", "z0"), n - 1, 3)):
            yield {"t": {"io": {".": 1, **t}}, "h": i % 3, "leaf": i % 3}
            yield {"t": {"io": t, "clk": {".": 1}}, "h": i % 3, "leaf": i % 3}
    for x, y in itertools.product(SUBS, repeat=2):
        for h in range(3):
            yield {"t": {"p": x, "q": y}, "h": h, "leaf": h}
            yield {"t": {"io": {"p": x, "q": y, "r": x}}, "h": h, "leaf": h}
            yield {"t": {"x": y, "y": {".": 1, "x": x}}, "h": h, "leaf": h}
    for n in range(1, 9):
        for mask in range(2 ** (n - 1)):
            t = {".": 1}
            for i in range(n - 1):
                t = {**({".": 1} if mask >> i & 1 else {}), "abc"[i % 3]: t}
            yield {"t": {"top": t}, "h": mask % 3, "leaf": n % 3}
    for n in (12, 40):
        for h in range(3):
            yield {"t": {f"p{i}": {".": 1} for i in range(n)}, "h": h, "leaf": h}
            yield {"t": {"io": {f"p{i}": SUBS[i % 9] for i in range(n)}}, "h": h, "leaf": h}
    for x in SUBS[1:]:
        yield {"t": {"p": x, "q": {".": 1}}, "h": 0, "leaf": 0, "cli": 1}


def spell(t, leaf):
    return {n: {**{k: v for k, v in (LEAVES[leaf] if "." in x else {}).items()}, **spell({k: v for k, v in x.items() if k != "."}, leaf)} for n, x in t.items()}


def pins(t, pre=""):
    for n, x in t.items():
        if n != ".":
            if "." in x:
                yield pre + n
            yield from pins(x, pre + n + "_")


def nodes(t, pre=""):
    for n, x in t.items():
        if n != ".":
            yield pre + n
            yield from nodes(x, pre + n + "_")


_mod = None


def generator():
    global _mod
    if _mod is None:
        spec = importlib.util.spec_from_file_location("intel_gen", os.path.join(REPO, "scripts", "bundle_code_intel_gen.py"))
        _mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod)
    return _mod


def run_case(case, rec):
    quiet()
    want = sorted(pins(case["t"]))
    joined = list(nodes(case["t"]))
    if len(set(joined)) < len(joined):
        rec.execution(0, [], "ambiguous")
        return
    with tempfile.TemporaryDirectory(prefix="c23-") as d:
        src, dst = os.path.join(d, "s.json"), os.path.join(d, "t.py")
        with open(src, "w") as f:
            json.dump(spell(case["t"], case["leaf"]), f)
        if case.get("cli"):
            p = subprocess.run([sys.executable, "-B", os.path.join(REPO, "scripts", "bundle_code_intel_gen.py"), src, dst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            expect(p.returncode, 0, "the generator failed on the command line", output=p.stdout[-500:])
        else:
            m = generator()
            m.hash = HASHES[case["h"]]
            m.main(src, dst)
        with open(dst) as f:
            code = f.read()
    ns = {"__name__": "generated"}
    try:
        exec(compile(code, "generated", "exec"), ns)
    except Exception as e:
        raise Violation("the generated code cannot be executed", error=repr(e), code=code)
    classes = [v for v in ns.values() if isinstance(v, type) and issubclass(v, Bundle) and v.__module__ == "generated"]
    if not classes:
        raise Violation("no bundle was generated", code=code)
    dut = fake.DUT([*want])
    b = classes[-1]().bind(dut)
    got = {}
    for name, sig in b.all_signals():
        pin = [p for p, x in dut._pins.items() if x.xdata is getattr(sig, "xdata", None)]
        expect(pin, [name.replace(".", "")], "a generated signal must be connected to the pin it is named after", signal=name, code=code)
        if pin[0] in got:
            raise Violation("two generated signals are connected to the same pin", signals=[got[pin[0]], name], code=code)
        got[pin[0]] = name
    expect(sorted(got), want, "every pin must be connected to a generated signal", code=code)
    rec.execution(len(want), [code], f"{len(classes)}/{len(want)}")
