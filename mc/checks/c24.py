"""C24: functions are marked for exactly the bins they were given for."""
import fnmatch
import importlib.util
import itertools
import json
import os
import shutil
import tempfile

import toffee.funcov as fc

from .. import fake
from ..core import Violation, expect
from ..util import quiet

ID = "C24"
BOUNDS = {
    "quick": "10 sets of bins (names that contain each other, wildcard and expression characters, numbers, the anonymous bin) x all selections of <=2 of 22 names and patterns given as one string, list or tuple x 5 function arguments; "
    "all words of <=4 operations over 8 marks and {reset, delete, add again, clear, sample, unknown point, unmatched name} on two points that share bins; "
    "names of functions: 24 layouts of a source file x 12 kinds of function",
    "thorough": "selections of <=3 names, words of length <=5",
}
NOTE = (
    "Exhaustive within the stated bounds, on the real CovGroup, against a reference matcher written for the names used here. A call that is refused because a name selects no bin must record nothing. "
    "What raise_error means for names that select no bin is left open."
)
# bins: names of a point's bins; None: one condition without a name
BINS = (
    ["a"],
    ["a", "b", "ab"],
    ["a", "aa", "aaa", "ba"],
    ["b0", "b1", "b10", "b_0", "ab0"],
    ["a*", "ab", "a?", "abc"],
    ["a.c", "abc", "a", "[ab]", "b"],
    ["", "x", "a b"],
    [0, 1, 10, "1x"],
    [(0, 1), "a", 2],
    None,
)
SELECT = ("*", "a", "b", "a*", "*a", "a?", "?", "??", "b?", "b*0", "*b*", "a.c", "a|b", "b[01]", "^b", ".*0", "[ab]", "anonymous", "1", "x$", " a ", "a b", "(0.*")
FUNCS = ("f", ["f"], ("f", "g"), ["f", "PY"], "PY")


def selected(name, bins):
    """Which bins the (stripped) name selects: the bin of that name, else by wildcards, else by expression from the start."""
    name = name.strip()
    if name in bins:
        return [name]
    if "*" in name or "?" in name:
        return [b for b in bins if wild(name, str(b))]
    return [b for b in bins if EXPR[name](str(b))]


def wild(p, s):
    if "[" in p:
        return fnmatch.fnmatchcase(s, p)
    if not p:
        return not s
    if p[0] == "*":
        return any(wild(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and p[0] in ("?", s[0]) and wild(p[1:], s[1:])


st = lambda *ps: lambda s: s.startswith(ps)
EXPR = {
    "a": st("a"),
    "b": st("b"),
    "a.c": lambda s: len(s) >= 3 and s[0] == "a" and s[2] == "c",
    "a|b": st("a", "b"),
    "b[01]": st("b0", "b1"),
    "^b": st("b"),
    "[ab]": st("a", "b"),
    "anonymous": st("anonymous"),
    "1": st("1"),
    "x$": lambda s: s == "x",
    "a b": st("a b"),
    "nope": st("nope"),
    "n[xyz]": st("nx", "ny", "nz"),
    "z": st("z"),
    "nz": st("nz"),
}


def cases(tier):
    th = tier == "thorough"
    for bi in range(len(BINS)):
        for n in range(1, (3 if th else 2) + 1):
            for sel in itertools.product(range(len(SELECT) - 1), repeat=n):
                for form in ("str", "list", "tuple") if n == 1 else ("list", "tuple"):
                    for fi in range(len(FUNCS)) if n == 1 else (sum(sel) % len(FUNCS),):
                        yield {"k": "sel", "b": bi, "sel": list(sel), "form": form, "f": fi}
    ops = [["m", 0, "f", "*"], ["m", 0, "g", "z"], ["m", 0, ["f", "h"], ["n?", "z"]], ["m", 0, "PY", "n[xyz]"], ["m", 1, "f", "nz"], ["m", 1, ["g", "g"], "*"], ["m", 0, "k", ["z", "nope"]], ["m", 2, "f", "*"], ["q", 2, "f", "*"]]
    ops += [["res", 0], ["del", 0], ["add", 0], ["clear"], ["s", 0], ["s", 1]]
    for n in range(1, (5 if th else 4) + 1):
        for w in itertools.product(range(len(ops)), repeat=n):
            if any(ops[i][0] in "mq" for i in w):
                yield {"k": "word", "w": [ops[i] for i in w]}
    for lead, deco, body in itertools.product(range(4), range(3), (1, 2, 3)):
        yield {"k": "name", "lead": lead, "deco": deco, "body": body}


def run_case(case, rec):
    quiet()
    globals()["run_" + case["k"]](case, rec)


def py_function():
    """A function object that is marked."""


def full_name(x):
    return fc.get_func_full_name(py_function) if x == "PY" else x


def as_args(f):
    if f == "PY":
        return py_function
    return type(f)(py_function if x == "PY" else x for x in f) if isinstance(f, (list, tuple)) else f


def names_of(f):
    return {full_name(x) for x in (f if isinstance(f, (list, tuple)) else [f])}


def functions_of(group, point):
    d = next(p for p in group.as_dict()["points"] if p["name"] == point)["functions"]
    for b, l in d.items():
        if len(set(l)) != len(l):
            raise Violation("a function is listed twice for a bin", got=l)
    return {repr(b): sorted(l) for b, l in d.items()}


def run_sel(case, rec):
    bins = BINS[case["b"]]
    g = fc.CovGroup("g")
    pin = fake.XData("p")
    g.add_watch_point(pin, {b: fc.CovEq(0) for b in bins} if bins is not None else fc.CovEq(0), name="p")
    g.add_watch_point(pin, {b: fc.CovEq(0) for b in bins or ["anonymous"]}, name="other")
    have = bins if bins is not None else ["anonymous"]
    sel = [SELECT[i] for i in case["sel"]]
    arg = sel[0] if case["form"] == "str" else (list if case["form"] == "list" else tuple)(sel)
    f = FUNCS[case["f"]]
    want, ok = {}, True
    for s in sel:
        m = selected(s, have)
        ok = ok and bool(m)
        for b in m:
            want.setdefault(repr(b), set()).update(names_of(f))
    try:
        r = g.mark_function("p", as_args(f), arg)
    except AssertionError:
        if ok:
            raise Violation("a mark that selects bins was refused", sel=sel, bins=have)
        want = {}
    else:
        if not ok:
            raise Violation("a mark with a name that selects no bin must be refused", sel=sel, bins=have, got=functions_of(g, "p"))
        if r is not g:
            raise Violation("mark_function must return the group")
    expect(functions_of(g, "p"), {b: sorted(v) for b, v in want.items()}, "functions must be recorded for exactly the selected bins", sel=sel)
    expect(functions_of(g, "other"), {}, "other points must not change")
    rec.execution(1, [(case["b"], tuple(sel), case["f"])], ("sel", len(want)))


def run_word(case, rec):
    g = fc.CovGroup("g")
    d = fake.XData("p")
    fns = {}  # point -> {bin: set}
    hits = {}
    names = ("p", "q")
    shape = {"p": ("z", "nz", "ny"), "q": ("nz", "nzz")}

    def add(n):
        g.add_watch_point(d, {b: fc.CovEq(i) for i, b in enumerate(shape[n])}, name=n, once=False)
        fns[n] = {}
        hits[n] = [0] * len(shape[n])

    add("p")
    add("q")
    for op in case["w"]:
        k = op[0]
        if k in "mq":
            n = (*names, "unknown")[op[1]]
            ms = [selected(x, shape[n]) for x in (op[3] if isinstance(op[3], list) else [op[3]])] if n in fns else []
            good = bool(ms) and all(ms)
            try:
                r = g.mark_function(n, as_args(op[2]), op[3], **({"raise_error": False} if k == "q" else {}))
                if r is not g:
                    raise Violation("mark_function must return the group")
                if not good and k == "m":
                    raise Violation("a mark for an unknown point or with a name that selects no bin must be refused", op=op)
            except (ValueError, AssertionError) as e:
                if good or k == "q":
                    raise Violation("the mark was refused", op=op, got=repr(e))
            if good:
                for b in {b for m in ms for b in m}:
                    fns[n].setdefault(b, set()).update(names_of(op[2]))
        elif k == "clear":
            g.clear()
            fns.clear()
            hits.clear()
        elif k == "add":
            if "p" not in fns:
                add("p")
        elif k == "s":
            d.value = op[1]
            g.sample()
            for n in fns:
                if op[1] < len(hits[n]):
                    hits[n][op[1]] += 1
        elif "p" in fns:
            if k == "res":
                g.reset_point("p")
                hits["p"] = [0, 0, 0]
            else:
                g.del_point("p")
                del fns["p"], hits["p"]
        for n in fns:
            expect(functions_of(g, n), {repr(b): sorted(v) for b, v in fns[n].items()}, f"functions marked for point {n}", op=op)
            expect([b["hints"] for p in g.as_dict()["points"] if p["name"] == n for b in p["bins"]], hits[n], "marking must not change the counts")
        expect(sorted(p["name"] for p in g.as_dict()["points"]), sorted(fns), "points of the group")
        if json.loads(str(g)) != json.loads(json.dumps(g.as_dict())):
            raise Violation("the group's text must be the JSON form of its dictionary")
    rec.execution(len(case["w"]), [repr(case["w"][: i + 1]) for i in range(len(case["w"]))], ("word", repr(sorted((n, sorted(v)) for n, v in fns.items()))))


def run_name(case, rec):
    """The recorded name of a function object tells its file, lines, class and name."""
    lines, want = [], {}
    blank = [""] * case["lead"]
    deco = ["@keep"] * case["deco"]

    def emit(key, cls, name, params, indent, extra=()):
        lines.extend(blank)
        pad = "    " * indent
        start = len(lines) + 1
        for x in (*extra, *deco):
            lines.append(pad + x)
        lines.append(f"{pad}def {name}({params}):")
        for i in range(case["body"]):
            lines.extend(["", f"{pad}    # an empty line and a comment"] if i == 2 else [])
            lines.append(f"{pad}    pass")
        want[key] = (start, len(lines), cls, name)

    lines += ["def keep(f):", "    return f"]
    emit("plain", None, "plain", "", 0)
    lines += ["class C:"]
    emit("meth", "C", "meth", "self", 1)
    emit("cm", "C", "cm", "cls", 1, ["@classmethod"])
    emit("sm", "C", "sm", "", 1, ["@staticmethod"])
    lines += ["    class In:"]
    emit("inner", "C.In", "meth", "self", 2)
    lines += ["class D(C):"]
    emit("over", "D", "meth", "self", 1)
    lines += ["class E(D):", "    pass"]
    emit("last", None, "last", "a, *b", 0)
    d = tempfile.mkdtemp(prefix="mc-c24-")
    try:
        path = os.path.join(d, "marked.py")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        spec = importlib.util.spec_from_file_location("marked", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        objs = {
            "plain": [m.plain],
            "meth": [m.C.meth, m.C().meth],
            "cm": [m.C.cm, m.C().cm],
            "sm": [m.C.sm],
            "inner": [m.C.In.meth],
            "over": [m.D.meth, m.D().meth],
            "last": [m.last],
        }
        for key, os_ in objs.items():
            a, b, cls, name = want[key]
            text = f"{os.path.abspath(path)}:{a}-{b}::" + (f"{cls}::" if cls else "") + name
            if key in ("cm", "over"):  # inherited methods are named after the class they are bound to
                os_ += [(o, text.replace(f"::{cls}::", "::E::")) for o in ((m.E.cm, m.E().cm) if key == "cm" else (m.E().meth,))]
            for o in os_:
                o, text = o if isinstance(o, tuple) else (o, text)
                expect(fc.get_func_full_name(o), text, f"name of the function {key}")
                g = fc.CovGroup("g").add_watch_point(fake.XData("p"), {"a": fc.CovEq(0), "b": fc.CovEq(1)}, name="p")
                g.mark_function("p", o, "a")
                expect(functions_of(g, "p"), {repr("a"): [text]}, "a marked function object is recorded with its name")
    finally:
        shutil.rmtree(d)
    rec.execution(9, [("name", case["lead"], case["deco"], case["body"])], "name")
