"""C20: generated bundle code declares and binds exactly the selected pins."""
import importlib.util
import itertools
import os
import re

from toffee import Bundle

from .. import fake
from ..core import REPO, Violation, expect
from ..util import CAP, quiet

ID = "C20"
BOUNDS = {
    "quick": "all subsets of <=4 of 20 pins x 10 prefixes, 9 regular expressions, 5 dictionary styles x 4 line widths; 14 pin sets of up to 60 pins (name lengths 1..90) x all line widths 0..140 x 3 rules; code of two duts in one process",
    "thorough": "all subsets of <=5 pins x 8 widths, all widths 0..400",
}
NOTE = (
    "Exhaustive within the stated bounds: the real generator's output is executed and the bundle bound to a fake DUT. Rules that select two pins under one name, and signal names that Bundle itself uses "
    "(name, bind, step, ...), are outside the property."
)
POOL = (
    "io_a", "io_b", "io_a_b", "io_ab", "io_0", "io_1", "io_10", "io_in", "io_is", "io_out", "io__x", "io_", "clk", "reset", "a", "b",
    "IO_a", "xio_a", "io_vec_0_bits_data", "io_very_long_signal_name_that_fills_a_line_of_code_0123456789",
)
PREFIXES = ("", "io", "io_", "io_a", "i", "io_v", "x", "IO_", "clk", "nothing_")
REGEXES = (r"^io_(.*)$", r"(.*)", r"io_(.)(.*)", r"^([a-z]+)$", r"^(?:io_)?(a|b|reset)$", r"^io_(\d+)$", r"^(io)_(.*)_bits_(.*)$", r"^([^\"']*)_b$", r"^io_(.*?)(_b)?$")
DSTYLES = ("same", "ren", "kw", "part", "rot")


def long_sets():
    yield [f"io_s{i}" for i in range(60)]
    yield [f"io_{'n' * i}{i}" for i in range(1, 40, 3)]
    yield [f"io_{'m' * (i * 7 % 31)}x{i}" for i in range(30)]
    yield ["io_" + "w" * 90, "io_" + "v" * 90]
    yield ["io_a"]
    yield ["io_a", "io_b"]
    yield ["io_abc"]
    yield [f"io_p{i:02d}" for i in range(9)]
    yield [f"io_p{i}" for i in range(10)]
    yield [f"io_p{i}" for i in range(11)]
    yield [f"io_{i}" for i in range(12)]
    yield ["io_in", "io_out", "io_if", "io_x", "io__y"]
    yield [f"io_{k}" for k in ("in", "is", "or", "not", "while", "pass")]
    yield [f"io_q{i:03d}" for i in range(50)] + [f"io_{i}" for i in range(5)] + ["io_for"]


def cases(tier):
    th = tier == "thorough"
    rules = [["p", i] for i in range(len(PREFIXES))] + [["r", i] for i in range(len(REGEXES))] + [["d", i] for i in range(len(DSTYLES))]
    widths = (20, 33, 40, 60, 79, 120, 0, 200) if th else (120, 40, 24, 79)
    for n in range(1, (5 if th else 4) + 1):
        for sub in itertools.combinations(range(len(POOL)), n):
            for j, r in enumerate(rules):
                if n >= 4:
                    yield {"pins": list(sub), "rule": r, "w": widths[(sum(sub) + j) % 4]}
                else:
                    for w in widths:
                        yield {"pins": list(sub), "rule": r, "w": w}
    for i in range(len(list(long_sets()))):
        for w in range(0, 401 if th else 141):
            for r in (["p", 2], ["r", 0], ["d", w % 3]):
                yield {"long": i, "rule": r, "w": w}
    for a, b in itertools.product(range(14), repeat=2):
        yield {"two": [a, b], "w": 30 + a}
    for i in range(3):
        yield {"default": i}


_mod = {}


def module():
    if "m" not in _mod:
        spec = importlib.util.spec_from_file_location("bundle_code_gen", os.path.join(REPO, "scripts", "bundle_code_gen.py"))
        m = _mod["m"] = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    return _mod["m"]


def rule_value(rule, pins):
    """(generator name, argument, selected: signal name -> pin)."""
    kind, i = rule
    if kind == "p":
        pre = PREFIXES[i]
        return "prefix", pre, [(p[len(pre):], p) for p in pins if p.startswith(pre)]
    if kind == "r":
        rx = REGEXES[i]
        out = []
        for p in pins:
            m = re.search(rx, p)
            if m:
                out.append(("".join(g or "" for g in m.groups()), p))
        return "regex", rx, out
    style = DSTYLES[i]
    d = {}
    for j, p in enumerate(pins):
        if style == "same":
            d[p] = p
        elif style == "rot":  # named after other pins
            d[pins[(j + 1) % len(pins)]] = p
        elif style == "ren":
            d[f"n{j}_{'z' * (j % 5)}"] = p
        elif style == "kw":
            d[("in", "is", "x", "y1", "0", "or", "q")[j] if j < 7 else f"k{j}"] = p
        elif j % 2 == 0:
            d[f"s{j}"] = p
    d["absent"] = "no_such_pin"
    return "dict", d, [(k, v) for k, v in d.items() if v in pins]


BAD = {n for n in dir(Bundle())}


def check_lines(code, name, width):
    body = code.split(f"class {name}(Bundle):\n", 1)[1].split("\n\n", 1)[0]
    for line in body.split("\n"):
        cols = len(line.expandtabs(4))
        if cols <= width:
            continue
        toks = re.findall(r"[^\s,\\]+", line.split("=")[0])
        if "[" in line or line.strip() == "]" or re.fullmatch(r"\s*'[^']*',|\s*\"[^\"]*\",", line):
            continue
        if len(toks) > 1 or (toks and "=" in line):
            raise Violation("a generated line is longer than the line width although it could be broken", line=line, columns=cols, width=width, code=code)


def one(case, pins, rule, width, kw, rec):
    m = module()
    kind, val, sel = rule_value(rule, sorted(pins))
    names = [n for n, _ in sel]
    if len(set(names)) != len(names) or any(n in BAD for n in names):
        return
    dut = fake.DUT([*pins])
    for i, p in enumerate(pins):
        dut.poke(p, 100 + i)
    gen = getattr(m, f"gen_bundle_code_from_{kind}")
    try:
        code = gen("Gen", dut, val, **kw)
    except AssertionError:
        if sel:
            raise Violation("the generator refuses a rule that selects pins", rule=val)
        rec.execution(1, [], "none")
        return
    if not sel:
        raise Violation("the generator accepts a rule that selects nothing", code=code)
    expect(dut.snapshot(), {p: 100 + i for i, p in enumerate(pins)}, "generating code wrote to the dut")
    ns = {}
    try:
        exec(compile(code, "<generated>", "exec"), ns)
    except Exception as e:
        raise Violation(f"the generated code can not be executed: {type(e).__name__}: {e}", code=code)
    b = ns["bundle"]
    if not isinstance(b, ns["Gen"]) or not isinstance(b, Bundle):
        raise Violation("the generated bundle is not an instance of the generated class", code=code)
    expect(sorted(n for n, _ in b.all_signals()), sorted(names), "signals declared by the generated class", code=code)
    check_lines(code, "Gen", width)
    CAP.records.clear()
    b.bind(dut)
    for n, p in sel:
        expect(getattr(b, n).value, dut.peek(p), "a declared signal is not connected to the pin the rule selected it from", signal=n, pin=p, code=code)
    for i, (n, p) in enumerate(sel):
        getattr(b, n).value = 5000 + i
    want = {p: 100 + i for i, p in enumerate(pins)}
    want.update({p: 5000 + i for i, (_, p) in enumerate(sel)})
    expect(dut.snapshot(), want, "pins after writing all declared signals", code=code)
    expect(sorted(Bundle.detect_unconnected_signals(dut)), sorted(set(pins) - {p for _, p in sel}), "unselected pins", code=code)
    if CAP.errors():
        raise Violation("an error was logged", errors=CAP.errors())
    rec.execution(len(pins), [tuple(sel)], f"{kind}{len(sel)}")


def run_case(case, rec):
    quiet()
    if "pins" in case:
        one(case, [POOL[i] for i in case["pins"]], case["rule"], case["w"], {"max_width": case["w"]}, rec)
    elif "long" in case:
        one(case, list(long_sets())[case["long"]], case["rule"], case["w"], {"max_width": case["w"]}, rec)
    elif "two" in case:
        ls = list(long_sets())
        for i in case["two"]:
            one(case, ls[i], ["p", 2], case["w"], {"max_width": case["w"]}, rec)
    else:
        one(case, list(long_sets())[0], (["p", 2], ["r", 0], ["d", 1])[case["default"]], 120, {}, rec)
